#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})

LIB = ["py/latkerlo_jvotci/jvozba.py", "py/latkerlo_jvotci/katna.py", "py/latkerlo_jvotci/tools.py",
       "py/latkerlo_jvotci/tarmi.py", "py/latkerlo_jvotci/rafsi.py", "py/latkerlo_jvotci/data.py"]
TABLES = ("RAFSI_LIST, VALID, INITIAL, BANNED_TRIPLES, HYPHENS, SETTINGS",
          "module-level mutable tables shared by every call and thread of the process; only ever read",
          "py/latkerlo_jvotci/rafsi.py, data.py, tarmi.py")

prop("C01", "Concurrent library calls never influence one another",
     "When any number of threads of one process call the Python library's public functions (making, decomposing, scoring and classifying words, computing rafsi indices) at the same time, with any arguments and settings, every call returns or raises exactly what it would have as the only call in a fresh process, whatever the interleaving of their execution. No interleaving makes a call fail with an unrelated error, deadlock or never finish.",
     ["schedules", "inputs", "configurations"],
     "for every set of concurrent calls with any arguments and settings, and every interleaving of their bytecode instructions",
     "The tests are single-threaded, so they run one schedule; a shared scratch buffer, memo or 'current settings' variable is invisible to them.",
     LIB, [("all working state (current_best, index lists, result_parts) is local to the call and passed down by argument", "jvozba.py get_lujvo_from_list/combine/update_current_best; katna.py jvokaha_2; tools.py analyse_brivla"),
           ("mutually recursive calls share nothing but the read-only tables", "tools.py is_slinkuhi -> katna.py jvokaha -> jvozba.py get_lujvo_from_list")],
     [TABLES], ["return value, or exception type and message, of each public call"])

prop("C02", "A library answer never depends on earlier calls",
     "The outcome of a Python library call is a function of its arguments alone: after any sequence of earlier calls in the process, however long, whether they succeeded or failed, with the same or other words, settings and argument styles (positional or keyword, string or list), and made from this or from other threads, a call returns or raises exactly what it would in a fresh process.",
     ["histories", "inputs", "configurations"],
     "for every finite history of public calls preceding a call, over all settings",
     "Each test walks one fixed list in one order and compares with constants; a memo whose key omits a setting, a table edited in place or a counter that trips after many calls needs a particular history to show.",
     LIB, [("no module state is written after import", "all modules of py/latkerlo_jvotci"),
           ("settings travel as arguments through every call", "jvozba.py, katna.py, tools.py")],
     [TABLES], ["return value, or exception type and message, of each public call"])

prop("C03", "An interrupted call never answers wrongly and leaves no residue",
     "If an exception from outside (Ctrl-C or a signal handler's exception, a failed allocation, an exhausted call stack) strikes at any point inside a Python library call, that call either lets exactly that exception propagate or completes with the outcome it would have had anyway: it never turns the interruption into an answer or into an error of its own. Afterwards every call, the same one or another, in the same or another thread, answers as in a fresh process.",
     ["fault_sequences", "crash_points", "histories", "inputs"],
     "for every call, every point inside it where such an exception can be raised, every kind of exception, and every later sequence of calls",
     "No test interrupts a call; which instruction is hit decides whether a guard, marker or partly filled table is left behind or a broad handler swallows the fault.",
     LIB, [("every handler names the library's own errors (or IndexError/KeyError/TypeError); none is broad", "jvozba.py get_lujvo_from_list callers, katna.py jvokaha, tools.py is_brivla/analyse_brivla/is_slinkuhi"),
           ("no state outlives the call, so there is nothing to roll back", "all modules of py/latkerlo_jvotci")],
     [TABLES], ["exception or value that leaves the interrupted call; outcomes of all later calls"])

prop("C04", "Callers' data stays the callers'",
     "No Python library call modifies its arguments, and nothing a caller does after the call to an argument or to a returned value (editing, extending or clearing the lists it got back) changes the outcome of any other call. If another thread replaces or appends one element of the list of words being made into a lujvo while the call runs, the call answers for the list as it was before or after that change, never for a mixture.",
     ["histories", "schedules", "inputs"],
     "for every call, every later mutation of arguments and results by the caller, and every instant of one concurrent list change",
     "The tests never reuse or mutate what they pass or receive, and never change a list during a call.",
     LIB, [("the tanru is copied and normalised once on entry", "jvozba.py process_tanru"),
           ("results are built fresh per call and never stored", "jvozba.py combine (index_list + [...]), katna.py selrafsi_list_from_rafsi_list, tools.py get_rafsi_indices")],
     [TABLES], ["arguments after the call; outcome of later calls; outcome of the racing call"])

prop("C05", "Every interpreter process gives the same answers",
     "A Python library call returns or raises the same thing in every process: the outcome does not depend on the interpreter's hash seed, its optimisation level, the environment and locale, the clock, the random number generator's state, object addresses, garbage collection, recursion headroom (a call that runs out of it raises RecursionError, and nothing else), or the order in which the package's modules were imported.",
     ["configurations", "inputs"],
     "for every call and every setting of those process-level sources of nondeterminism",
     "The tests run once with PYTHONHASHSEED=0 in one environment; an iteration over a set that breaks score ties, or a check that lives in an assert, agrees with itself there.",
     LIB, [("candidates are tried in list and dict insertion order, with strict comparison so that the first best wins", "jvozba.py update_current_best, get_lujvo_from_list; katna.py search_selrafsi_from_rafsi"),
           ("no use of clocks, randomness, identity or the environment", "all modules of py/latkerlo_jvotci")],
     [TABLES], ["return value, or exception type and message, of each public call, per process"])

prop("C06", "Loading the library can be interrupted, retried and raced",
     "If importing the Python library is interrupted by an exception at any point and tried again, or is first imported by several threads at once, through any of its modules and in any interleaving, then every import that is not itself interrupted succeeds and gives a complete library on which every call answers as in a process that imported it undisturbed. No import attempt deadlocks, and none hands a caller a half-initialised module. (Interrupting an import while other threads are waiting for that same import is out of scope: CPython hands them the module that is being taken back.)",
     ["crash_points", "schedules", "fault_sequences"],
     "for every point at which an import can be interrupted, every number of retries, every choice of first-imported modules per thread and every interleaving",
     "The tests import once, alone and undisturbed, although the modules import each other in a cycle and partly at call time.",
     ["py/latkerlo_jvotci/__init__.py"] + LIB,
     [("the import cycle is cut by importing katna inside functions", "tools.py analyse_brivla/is_slinkuhi/is_gismu_or_lujvo, jvozba.py get_rafsi_list_list"),
      ("module bodies only define constants, classes and functions", "all modules of py/latkerlo_jvotci")],
     [("sys.modules entries of the package", "which modules are (half-)loaded", "interpreter")],
     ["outcome of each import statement and of calls made right after it"])

prop("C07", "An interactive session follows exactly the lines typed so far",
     "In an interactive Python session (the lujvo maker and the decomposer, run as programs), every prompt shows the settings in force, a line starting with a slash changes exactly the settings whose words it contains (ignoring unknown words), and every other line is answered, in order, with what the library function gives for that line under those settings in a fresh process, or with the message of its error; an empty line ends the session. Whenever the program waits for a line, everything up to its prompt has been displayed. The transcript depends only on the text of the lines, not on how input and output arrive in pieces, are retried or delayed.",
     ["histories", "inputs", "schedules"],
     "for every sequence of lines of any length and every way of chunking input and output",
     "No test runs either program.",
     ["py/latkerlo_jvotci/jvozba.py", "py/latkerlo_jvotci/katna.py"],
     [("read loop with a match statement over setting words", "jvozba.py and katna.py, __main__ block")],
     [("cmevla/y/raf/con/glide/mz settings", "settings in force", "jvozba.py, katna.py __main__ block")],
     ["standard output of the program, and when it exits"])

prop("C08", "Only an empty line or an outside fault ends an interactive session",
     "No line of text typed at an interactive Python session (lujvo maker or decomposer) ends it except an empty one: a line that cannot be processed is answered with an error message and the next line is served under the same settings. When the input ends or fails, the user presses Ctrl-C, or the terminal it writes to fails for good, the session terminates within a bounded number of steps (a failure of a buffered output is noticed at the latest when the session ends, as in any program that uses input()). In every case every line read before the end of the input has been answered, and what it has printed is a prefix of the transcript of an undisturbed session, never a wrong, duplicated or reordered answer.",
     ["fault_sequences", "histories", "inputs", "crash_points"],
     "for every sequence of lines and every placement of end of input, read error, write error, full disk and interrupt",
     "No test runs either program, let alone with failing streams.",
     ["py/latkerlo_jvotci/jvozba.py", "py/latkerlo_jvotci/katna.py"],
     [("except clause around the library call in the read loop", "jvozba.py and katna.py, __main__ block")],
     [("cmevla/y/raf/con/glide/mz settings", "settings in force", "jvozba.py, katna.py __main__ block")],
     ["standard output of the program, and whether it is still reading"])

GEN = ["make_rafsi_list.py", "make_dictionary_test_list.py", "make_js_tests.py"]
prop("C09", "A generator run without a good input changes nothing",
     "If the dictionary export cannot be obtained as one complete, well-formed document with dictionary entries (connection refused, reset or timed out at any byte, an HTTP error, a truncated body, a page that is not an export), or a generator script's local input cannot be read to the end, the script exits with a failure status and every file it would have written keeps its previous content byte for byte.",
     ["fault_sequences", "crash_points"],
     "for every fault at every byte of the response or of the local inputs",
     "The scripts have no tests; they are only run by hand against a live server.",
     GEN, [("the whole response is read and parsed before any output file is opened", "make_rafsi_list.py, make_dictionary_test_list.py"),
           ("all rows are rendered before the output file is opened", "make_js_tests.py")],
     [("output files", "generated tables and test lists under version control", "py/latkerlo_jvotci/rafsi.py, js/src/rafsi.ts, js/docs/rafsi.js, rs/src/rafsi.rs, tests/jvs_words.json, tests/js_tests.js")],
     ["exit status; bytes of the output files"])

prop("C10", "Generated files are never torn, and a rerun repairs everything",
     "Whatever happens to a generator script while it writes (killed at any point, disk full, write error, short write), each file it generates holds at every moment either its complete previous content or its complete new content. A script that could not finish every file reports failure, and running it again without faults produces exactly the files an undisturbed run would have produced.",
     ["crash_points", "fault_sequences"],
     "for every file operation of a run at which the process can die or the operation can fail, and every sequence of such runs",
     "The scripts have no tests; a torn table shows only when a run dies between opening and closing a file, and a torn Python table stops the generator itself from being rerun.",
     GEN, [("write to a temporary file, then rename over the target", "make_rafsi_list.py, make_dictionary_test_list.py, make_js_tests.py")],
     [("output files", "generated tables and test lists under version control", "py/latkerlo_jvotci/rafsi.py, js/src/rafsi.ts, js/docs/rafsi.js, rs/src/rafsi.rs, tests/jvs_words.json, tests/js_tests.js")],
     ["bytes of the output files after every simulated crash or failure; exit status"])

prop("C11", "Generated files are a function of the input, and the four tables agree",
     "A successful generator run's output depends only on its input documents: not on the interpreter's hash seed, the locale, how the network split or delayed the response, what the output files held before, or earlier runs that were aborted. The Python, TypeScript, JavaScript and Rust tables of one run hold the same words with the same rafsi in the same order: every gismu of the export, official and experimental, and every cmavo that has a rafsi (leaving out experimental gismu that differ from an official one only in the last vowel), with all its official rafsi, the script's built-in exceptions, the well-formed rafsi its notes propose that no word has officially, and nothing else. The word list for the tests holds every entry of the export once, under its type, and the JavaScript test file every usable row of the local lists.",
     ["configurations", "histories", "schedules", "inputs"],
     "for every export, hash seed, chunking and delay of the response, previous content and earlier aborted runs",
     "The scripts have no tests, and one run by hand samples one hash seed and one export.",
     GEN, [("rafsi of a word are gathered in sets and sorted before they are written", "make_rafsi_list.py"),
           ("all four tables are rendered from one dictionary", "make_rafsi_list.py")],
     [("rafsi_list", "word -> ordered rafsi", "make_rafsi_list.py")],
     ["bytes of the output files; the mapping each table denotes"])

prop("C12", "The demo page settles on the current input and mode",
     "Whatever the order and timing of typing, button clicks and timer firings on the demo page, once they stop for the page's short delay (plus any lateness of the browser's timers) the table shows, for every combination of settings in the chosen mode, exactly what the JavaScript library answers for the text then in the box and the lujvo/cmevla choice then active. Until then, anything it shows is the complete answer for some text and mode that were current when it was computed, a button click is reflected at once, and the highlighted buttons always match the active mode.",
     ["schedules", "histories", "inputs"],
     "for every sequence and timing of input events, clicks and late timer firings",
     "The page has no tests; a debounce or mode bug needs a particular order of events and timer firings.",
     ["demo_page.js", "index.html"],
     [("debounced refresh: every input event clears the timer and starts a new one", "demo_page.js goDebounced"),
      ("refresh reads the text and the mode when it runs", "demo_page.js go")],
     [("interval, doCmevla, isEzMode", "pending timer and mode", "demo_page.js")],
     ["innerHTML of the table and className of the buttons after every event"])

prop("C13", "The debug page shows the result for the controls as they stand",
     "After any sequence of edits, mode and setting changes, resets and button presses on the debug page, each press of the run button shows exactly what the chosen JavaScript function returns for the text and settings in the controls at that moment, or its error message marked as an error; a later success is never still marked as an error, nothing is shown between presses that was not the result of a press, and the reset button restores every setting to its default.",
     ["histories", "inputs"],
     "for every sequence of control changes and presses",
     "The page has no tests.",
     ["debug-ts.html"],
     [("click handler reads every control and clears the error mark first", "debug-ts.html inline script")],
     [("controls and output paragraph", "DOM state", "debug-ts.html")],
     ["innerHTML/innerText and class list of the output paragraph after every event"])

prop("C14", "The Rust command-line session serves every line and always terminates",
     "In interactive mode the Rust program answers every line with exactly what a fresh process started with the settings then in force answers for it; a flag line (/ and flags) changes exactly the settings it names and the prompt shows the result, the line / restores the defaults, a flag line with an unknown character changes nothing; no panic: no line of text other than a quit command (/q) ends the session. Called with words as arguments it prints what a session answers to them and ends. When the input ends, or input or output fails, the program terminates within a bounded number of steps, and what it printed before is a prefix of the undisturbed transcript.",
     ["histories", "fault_sequences", "inputs", "crash_points"],
     "for every sequence of lines and every placement of end of input, read and write errors",
     "The Rust tests exercise the library only; nothing runs the program's loop.",
     ["rs/src/main.rs", "rs/src/tarmi.rs", "rs/src/tools.rs", "rs/src/katna.rs"],
     [("read loop", "rs/src/main.rs main"), ("flag parsing and toggling", "rs/src/tarmi.rs Settings::apply_flags")],
     [("settings, input", "settings in force and the line buffer that is reused", "rs/src/main.rs")],
     ["standard output and exit of the program"])

prop("C15", "The Rust program's output does not depend on randomness or I/O timing",
     "For the same arguments and input bytes the Rust program prints the same bytes and exits with the same status in every process: whatever the hash map seed, address layout and environment, and however its reads and writes are split into pieces, interrupted by signals or delayed.",
     ["configurations", "schedules", "inputs"],
     "for every hash seed and every way of splitting and interrupting reads and writes",
     "Rust's hash maps are seeded randomly per process, so a test run samples one iteration order.",
     ["rs/src/main.rs", "rs/src/katna.rs", "rs/src/jvozba.rs", "rs/src/rafsi.rs", "rs/src/data.rs"],
     [("searches over the rafsi map have at most one hit, because no rafsi belongs to two words", "rs/src/katna.rs search_selrafsi_from_rafsi, rs/src/rafsi.rs"),
      ("candidates are kept in insertion-ordered maps", "rs/src/jvozba.rs")],
     [("RAFSI, VALID, INITIAL", "randomly seeded hash tables", "rs/src/rafsi.rs, rs/src/data.rs")],
     ["standard output and exit status"])

# ---- pure functions: listed for breadth, not decided by this technique
prop("C16", "A made lujvo decomposes back into its tanru",
     "Decomposing the word made from a tanru under some settings, under the same settings, gives back the words of the tanru, with rafsi that belong to no word written as rafsi.",
     ["inputs", "configurations"], "for every tanru and every combination of settings",
     "The tests check lists of examples; the set of tanru is infinite.",
     ["py/latkerlo_jvotci/jvozba.py", "py/latkerlo_jvotci/katna.py"], [("make/decompose pair", "jvozba.py get_lujvo, katna.py get_veljvo")])
prop("C17", "Every made lujvo is a valid word",
     "A word made as a lujvo is classified as a lujvo (plain or extended) under the settings it was made with, and one made as a cmevla ends in a consonant and is classified as a decomposable cmevla.",
     ["inputs", "configurations"], "for every tanru and every combination of settings",
     "The tests check lists of examples.",
     ["py/latkerlo_jvotci/jvozba.py", "py/latkerlo_jvotci/tools.py"], [("tosmabru, slinku'i and hyphen rules while combining", "jvozba.py combine, get_lujvo_from_list")])
prop("C18", "The made lujvo has the best score, and the score is the word's",
     "No valid lujvo for the tanru has a lower score than the one made, and the reported score equals the score computed from the word alone.",
     ["inputs", "configurations"], "for every tanru and every combination of settings",
     "The tests compare scores for a few examples.",
     ["py/latkerlo_jvotci/jvozba.py", "py/latkerlo_jvotci/katna.py"], [("dynamic programming over best candidates", "jvozba.py update_current_best, score")])
prop("C19", "Index pairs delimit the rafsi in the word",
     "The index pairs reported with a made lujvo, and those computed from a decomposition, select from the word exactly its rafsi, in order, leaving only hyphens uncovered.",
     ["inputs", "configurations"], "for every tanru, word and combination of settings",
     "The tests compare index lists for a few examples.",
     ["py/latkerlo_jvotci/jvozba.py", "py/latkerlo_jvotci/tools.py"], [("index bookkeeping while combining", "jvozba.py combine; tools.py get_rafsi_indices")])
prop("C20", "Classification follows the documented morphology",
     "With default settings a string is classified as a gismu, zi'evla, lujvo, extended lujvo or no brivla exactly as Camxes: Standard and jbovlaste do, except for the differences the repository documents, and each option changes exactly what its documentation says.",
     ["inputs", "configurations"], "for every string and every combination of settings",
     "The tests check a dictionary and lists of examples.",
     ["py/latkerlo_jvotci/tools.py", "py/latkerlo_jvotci/tarmi.py", "differences.md"], [("morphology rules", "tools.py analyse_brivla, check_zihevla_or_rafsi")])
prop("C21", "Unusable input raises only the documented errors",
     "For any string or list of strings the Python library functions either return or raise one of the package's own exceptions, as documented per function.",
     ["inputs", "configurations"], "for every input and every combination of settings",
     "The tests accept IndexError as an expected failure and check lists of examples.",
     ["py/latkerlo_jvotci/tools.py", "py/latkerlo_jvotci/jvozba.py", "py/latkerlo_jvotci/katna.py"], [("explicit checks before indexing", "tools.py, jvozba.py, katna.py")])
prop("C22", "The Python, JavaScript and Rust implementations agree",
     "For the same word or tanru and settings the three implementations give the same words, types, decompositions, scores and indices, and their shipped rafsi tables are the same.",
     ["inputs", "configurations"], "for every input and every combination of settings",
     "Each implementation is tested alone, on shared example lists.",
     ["py/latkerlo_jvotci", "js/src", "rs/src"], [("line-by-line ports of one algorithm", "py, js/src, rs/src")])
prop("C23", "Spelling variants of one word get one answer",
     "A leading period, capital letters, h for the apostrophe and commas never change the outcome of a library call beyond the spelling echoed in messages, and a tanru given as a string or as the list of its words is the same tanru.",
     ["inputs", "configurations"], "for every word, variant spelling and combination of settings",
     "The tests use hardly any variant spelling.",
     ["py/latkerlo_jvotci/tools.py", "py/latkerlo_jvotci/jvozba.py"], [("normalisation on entry", "tools.py normalise; jvozba.py process_tanru")])

prop("C24", "A call made in the middle of another call on the same thread disturbs neither",
     "A signal handler or a finalizer that CPython runs in the middle of a Python library call may itself call the library, with the same or other arguments, and may in turn be interrupted by another: every such nested call and every interrupted call returns or raises exactly what it would as the only call in a fresh process, and none of them waits forever.",
     ["schedules", "histories", "inputs"],
     "for every call, every point inside it where CPython runs signal handlers and finalizers, every nesting of further calls there, and any calls in other threads",
     "No test calls the library from a handler; a lock that is not reentrant, or per-thread scratch data, passes every single-threaded and every multi-threaded test.",
     LIB, [("calls keep no state outside their own frames and take no locks", "all modules of py/latkerlo_jvotci")],
     [TABLES], ["return value, or exception type and message, of the nested and the interrupted calls"])
prop("C25", "A forked process answers like any other, whenever it was forked",
     "A process may fork at any moment once the Python package's modules are imported, also while calls are in progress in its other threads or, from a signal handler, in the forking thread. In the child, where only the forking thread exists, and in the parent every call returns or raises exactly what it would as the only call in a fresh process, and none waits forever; likewise in children of children.",
     ["schedules", "histories", "crash_points", "inputs"],
     "for every set of calls in progress, every instant of the fork within them, and every later sequence of calls in child and parent",
     "No test forks; a lock held, a worker thread lost or a table half updated at the moment of the fork needs that moment.",
     LIB, [("no locks, worker threads or at-fork handlers exist, and no state is ever half updated", "all modules of py/latkerlo_jvotci")],
     [TABLES], ["return value, or exception type and message, of calls in child and parent"])

prop("C26", "A JavaScript library answer never depends on what the page did before",
     "In one JavaScript realm with the scripts of js/docs or the sources of js/src loaded, every library call returns or throws exactly what it would as the first call of a fresh realm with the same arguments: whatever calls came before, failed or were cut off by an exhausted stack, whatever callers have since done to arrays and objects they passed in or got back, whatever the random numbers, clock, timers, garbage collections and user's locale, and also when an accessor among the settings itself calls the library. No call changes its arguments. A call made with the stack nearly exhausted may throw the engine's RangeError instead, but never gives another answer.",
     ["histories", "crash_points", "inputs", "configurations"],
     "for every sequence of calls and edits in a realm, every depth of the stack at each call, every locale, clock and random sequence, and both trees",
     "The JavaScript tests are a page of examples, each called once in one order with stack to spare.",
     ["js/src", "js/docs", "index.html"], [("module-level data is constant tables only and every result is built afresh", "js/src/*.ts, js/docs/*.js")],
     ["js/docs/rafsi.js RAFSI_LIST", "js/src/rafsi.ts RAFSI_LIST"], ["value returned or exception thrown, and arguments after the call"])

prop("C27", "A Rust library call is never influenced by other calls in its process",
     "In one process using the Rust crate, with any number of threads making library calls and any calls made before, every call returns or panics exactly as it would as the only call of a fresh process: whichever threads run in between at any point of it, whatever calls with other settings, failing calls and panicking calls came before or go on at the same time, and however often its waits are interrupted. No call waits forever or keeps another from ending, and no call ends the process that would not end it alone.",
     ["schedules", "histories", "inputs", "configurations"],
     "for every interleaving of any number of threads' calls, every earlier history, every settings value, and every futex wakeup a kernel may deliver",
     "The Rust tests make one call after another in a fixed order, and the library's lazily built tables and global statics are filled once per test process by whichever call happens to be first.",
     ["rs/src"], [("lazily initialised statics hold constant tables only, and everything else a call uses is its own", "rs/src/*.rs")],
     ["rs/src/rafsi.rs RAFSI", "rs/src/tools.rs LazyLock statics"], ["value returned or panic of every call", "all threads end"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
