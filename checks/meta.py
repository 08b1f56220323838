"""
Static description of the checks (no import of the code under test, so that it can be read even when that is broken).
"""
REAL_SQLITE = "SQLite itself (pager, journal, locking protocol), Python's sqlite3 module"
REAL_TICDAT = "all ticdat code, imported from /repo's working tree"
STUB_VFS = "SQLite's OS layer: a simulated disk (VFS) decides every open/read/write/sync/delete/lock, clock and sleep"
STUB_FS = "files: open/read/write/close/listdir/mkdir/remove/rename inside the scratch directory go through the fault layer"
STUB_SCHED = "thread scheduling, clocks, sleeping, busy timeouts and lock waits: decided by the seeded scheduler on virtual time"

META = {
    "P01": {
        "runs": {"quick": 1200, "thorough": 20000}, "block": 30, "level": "exploration",
        "components": {"real": [REAL_TICDAT, REAL_SQLITE], "stub": [STUB_VFS]},
        "rule": "seeded schema + old/new data + file state (absent, schema only, populated, unrelated extra table), then several "
                "fault placements over the write's own I/O steps (I/O error, disk full, torn write, lock contention, process "
                "crash, power loss with lost/torn unsynced writes). Non-trivial: at least one fault fired inside the write; "
                "distinct by (initial state, per fault: kind, step hit, how the call ended, which state was found afterwards).",
    },
    "P03": {
        "runs": {"quick": 1200, "thorough": 20000}, "block": 30, "level": "exploration",
        "components": {"real": [REAL_TICDAT, "json, csv, pandas, openpyxl, xlsxwriter, xlwt, xlrd"], "stub": [STUB_FS]},
        "rule": "seeded schema + data + format + options; several fault placements (I/O error, full disk, torn and short writes, "
                "permission and descriptor errors at open, process crash) over the write's own steps. Non-trivial: a fault fired; "
                "distinct by (format, options, initial state, per fault: kind, step hit, how the call ended).",
    },
    "P04": {
        "runs": {"quick": 1600, "thorough": 30000}, "block": 40, "level": "exploration",
        "components": {"real": [REAL_TICDAT, "json, csv, pandas, openpyxl, xlsxwriter, xlwt, xlrd", REAL_SQLITE],
                       "stub": [STUB_FS, STUB_VFS]},
        "rule": "seeded histories of 3-10 permitted and refused writes over 1-3 targets of all formats on one simulated disk (refusals: "
                "no overwrite permission, wrong object, unstorable value, wrong kind of path or extension); after every refusal the "
                "whole disk is compared byte for byte. Non-trivial: at least one refusal happened; distinct by the set of "
                "(refusal, format, whether the target held data, variant).",
    },
    "P05": {
        "runs": {"quick": 1360, "thorough": 20000}, "block": 34, "level": "exploration",
        "components": {"real": [REAL_TICDAT, "json, csv, pandas, openpyxl, xlrd", REAL_SQLITE], "stub": [STUB_FS, STUB_VFS]},
        "rule": "seeded schema + data + format + options, read or duplicate scan, some SQLite files left by a killed writer; several "
                "fault placements over the read's own steps (I/O error, permission and descriptor errors, lock contention, process "
                "crash). Non-trivial: a fault fired; distinct by (format, operation, options, per fault: kind, step, outcome).",
    },
    "P02": {
        "runs": {"quick": 1200, "thorough": 15000}, "block": 30, "level": "exploration",
        "components": {"real": [REAL_TICDAT, "pandas", REAL_SQLITE], "stub": [STUB_VFS]},
        "rule": "seeded schema + old/new data + if_exists mode + file state, written through a path or a connection, then several "
                "fault placements over the write's own I/O steps (I/O error, disk full, torn write, lock contention, process crash, "
                "power loss). Non-trivial: a fault fired, or a refusal was required; distinct by (mode, initial state, per fault: "
                "kind, step, outcome, table states found).",
    },
    "P06": {
        "runs": {"quick": 800, "thorough": 15000}, "block": 20, "level": "exploration",
        "technique": "deterministic simulation: seeded scheduler over concurrent processes, faults and kills; linearizability check",
        "components": {"real": [REAL_TICDAT, REAL_SQLITE, "Python threads (one runs at a time)"], "stub": [STUB_VFS, STUB_SCHED]},
        "rule": "seeded schema, data and 2-4 concurrent clients (reads, data-frame reads, duplicate scans, overwriting and "
                "non-overwriting writes, lock holders, pauses) interleaved at every SQLite I/O step and, in some runs, at ticdat's "
                "source lines; some runs kill one client or inject I/O faults. The history is checked for linearizability. "
                "Non-trivial: at least one pair of operations overlapped; distinct by (initial state, outcome multiset, overlaps, faults).",
    },
    "P07": {
        "runs": {"quick": 480, "thorough": 8000}, "block": 12, "level": "exploration",
        "technique": "deterministic simulation: seeded scheduler over threads sharing a factory; comparison with sequential runs",
        "components": {"real": [REAL_TICDAT, "all file libraries", REAL_SQLITE, "Python threads (one runs at a time)"],
                       "stub": [STUB_VFS, STUB_FS, STUB_SCHED]},
        "rule": "seeded schema (with foreign keys, types, predicates), 2-4 threads with 1-3 operations each (building, copying, "
                "freezing, integrity checks, repairs, conversions, reading and writing every format), preempted at I/O steps and at "
                "ticdat's source lines or byte codes, or stalled at one source line (often one just after shared state changed) until "
                "the others are done. Each result is compared with that of a fresh factory used alone, and again after "
                "the threads are done. Non-trivial: at least 4 task switches; distinct by (kind, operations per thread, switches/10).",
    },
    "P14": {
        "runs": {"quick": 1000, "thorough": 15000}, "block": 25, "level": "exploration",
        "technique": "deterministic simulation: seeded histories with faults, refinement against a fresh factory",
        "components": {"real": [REAL_TICDAT, "all file libraries", REAL_SQLITE], "stub": [STUB_VFS, STUB_FS]},
        "rule": "seeded schema, then a history of 4-18 accepted and refused configuration calls, duplicate scans, reads and other uses, "
                "some broken off by injected faults; each call is compared with the same call on a fresh factory given the accepted "
                "configuration only. Non-trivial: every run with a history; distinct by the sequence of (call, outcome, used yet).",
    },
    "P15": {
        "runs": {"quick": 2000, "thorough": 30000}, "block": 50, "level": "exploration",
        "technique": "deterministic simulation: seeded histories of edits and faults by scheduled threads; invariant check",
        "components": {"real": [REAL_TICDAT, "all file libraries", REAL_SQLITE, "Python threads (one runs at a time)"],
                       "stub": [STUB_VFS, STUB_FS, STUB_SCHED]},
        "rule": "seeded schema (foreign-key links in most runs) and data, frozen directly, by a copy or by a read, then 1-3 threads of "
                "2-10 operations each: direct edits of tables, rows, links and attributes, also through names held from before, "
                "factory operations and writes, some faulted. After every operation everything visible of the object is compared. "
                "Non-trivial: at least one operation applied; distinct by (source, links, threads, set of operations with outcome).",
    },
    "P16": {
        "runs": {"quick": 3000, "thorough": 60000}, "block": 75, "level": "exploration",
        "technique": "deterministic simulation: seeded schedules and failures of members, comparison with an executable model",
        "components": {"real": [REAL_TICDAT, "Python threads (one runs at a time)"],
                       "stub": [STUB_SCHED, "members of the tuples: objects whose hashing and comparing fails when the seed says so"]},
        "rule": "seeded tuples (plain, nested and user-defined members, duplicates), then 3-10 slices, clears and refused calls, some broken off "
                "by an error, MemoryError or KeyboardInterrupt out of the n-th use of a member; then 0-3 threads slicing one new slicer, preempted at "
                "lines or byte codes, or one stalled at a line until the others are done. Non-trivial: every run; distinct by the "
                "sequence of (operation, wildcards, outcome) and the number of threads and switches.",
    },
    "P17": {
        "runs": {"quick": 3000, "thorough": 60000}, "block": 75, "level": "exploration",
        "technique": "deterministic simulation: seeded histories with exceptions injected at lines of ticdat, against an executable model",
        "components": {"real": [REAL_TICDAT, "pandas"],
                       "stub": ["KeyboardInterrupt and MemoryError: raised at the line of ticdat that the seed says"]},
        "rule": "seeded schema (compound, cyclic and self-referencing foreign keys, also to fields that are no key; types with all options) and "
                "data (unmatched, ill-typed and duplicate values, any data frame index), then 2-6 checks, repairs, refused repairs and edits, "
                "with and without limits; 45% of them are broken off at a seeded line and then repeated. Every set is iterated in an order "
                "that depends on the block's hash seed. Non-trivial: every run; distinct by the sequence of (operation, outcome).",
    },
    "P18": {
        "runs": {"quick": 6000, "thorough": 120000}, "block": 100, "level": "exploration",
        "technique": "deterministic simulation: seeded histories with exceptions injected at lines of ticdat, against an executable model",
        "components": {"real": [REAL_TICDAT, "pandas"],
                       "stub": ["KeyboardInterrupt and MemoryError: raised at the line of ticdat that the seed says"]},
        "rule": "seeded schema (foreign keys, links, defaults, generic tables), data and 3-12 operations on a growing set of live objects: copies, "
                "conversions to and from data frames, constructions from users' containers, obfuscations, freezing, edits (good, refused, of frozen "
                "objects, in place in data frames) and further use of the containers; a third broken off at a seeded line. After each operation "
                "every object and container is compared with its model. Non-trivial: every run; distinct by the sequence of (operation, outcome).",
    },
    "P08": {
        "runs": {"quick": 1200, "thorough": 20000}, "block": 30, "level": "exploration",
        "components": {"real": [REAL_TICDAT, "csv, openpyxl, xlrd, xlsxwriter, xlwt", REAL_SQLITE, "Python threads (one runs at a time)"],
                       "stub": [STUB_VFS, STUB_FS, STUB_SCHED]},
        "rule": "seeded schema with generator tables, data, source format and options, then 3-10 steps: whole, partial, interleaved, abandoned "
                "and concurrent iterations, iterations and writes hit by I/O faults, writes to other formats and over the source itself, "
                "user generators that raise, sources that vanish. Non-trivial: every run with a step; distinct by the sequence of steps "
                "with their outcome.",
    },
    "P13": {
        "runs": {"quick": 6000, "thorough": 100000}, "block": 150, "level": "exploration",
        "technique": "deterministic simulation: seeded failures of user callbacks, comparison with an executable model",
        "components": {"real": [REAL_TICDAT, "pandas"], "stub": ["user callbacks: predicates, argument makers and converters driven by the seed"]},
        "rule": "seeded schema, data (some of it invalid), row predicates with and without argument makers and converters, and 2-4 "
                "checks in which callbacks raise or return nonsense at seeded (callback, row, check) points; the last check is free of "
                "failures. Non-trivial: at least one predicate; distinct by (kind of object, index or frozenness, number of "
                "predicates, per check: handling, cut short, something raised, something failed).",
    },
    "P11": {
        "runs": {"quick": 800, "thorough": 12000}, "block": 20, "level": "exploration",
        "components": {"real": [REAL_TICDAT, "json, csv, pandas, openpyxl, xlsxwriter, xlwt, xlrd", REAL_SQLITE],
                       "stub": [STUB_FS, STUB_VFS, "the command line (sys.argv) and the solve function"]},
        "rule": "seeded input and solution schemas, data, formats, command lines and 1-2 rounds of the command line driver (input clean, "
                "missing, odd, with duplicates or integrity failures; solve returning, raising, exiting, changing its data), then several fault "
                "placements over the whole run's I/O steps, each followed by a run without faults. Non-trivial: every run; distinct by "
                "(formats, per round: input, solve, ending, per fault: kind, step, ending).",
    },
    "P09": {
        "runs": {"quick": 800, "thorough": 12000}, "block": 20, "level": "exploration",
        "components": {"real": [REAL_TICDAT, "SQLAlchemy with its PostgreSQL dialect", "psycopg2.extras.execute_values", "pandas"],
                       "stub": ["the PostgreSQL server and psycopg2's connections and cursors (sim/pg.py)"]},
        "rule": "seeded schema written by write_schema into a simulated server (autocommitting engine or connection, or transactional "
                "connection; with or without bulk dsn, constraints, active flag, missing table), then 2-4 writes (delete/append per table, data "
                "that may break constraints, progress and context-manager callbacks that stop or raise), reads and duplicate scans, each "
                "with several fault placements over its statements, fetches and commits. Non-trivial: every run; distinct by (kind, "
                "mode, per operation: outcome, per fault: kind, step, outcome).",
    },
    "P10": {
        "pre": ["sim.access"],
        "runs": {"quick": 1500, "thorough": 25000}, "block": 45, "level": "exploration",
        "components": {"real": [REAL_TICDAT],
                       "stub": [STUB_FS, "pyodbc with the Access driver (sim/access.py; statements are executed by SQLite in strict tables)"]},
        "rule": "seeded schema (reserved words, generators, infinities as flag or null, parameters), field types, old and new data, state of "
                "the file; then a write, a refused write, a read, a read of a file made by others or a duplicate scan, each without "
                "faults and then with several faults over the driver's calls (error, lock, lost acknowledgement of a commit, crash) and "
                "the making of a new file. Non-trivial: every run; distinct by (kind, state, per fault: kind, call, outcome; data class).",
    },
    "P12": {
        "pre": ["sim.foresta"],
        "runs": {"quick": 800, "thorough": 12000}, "block": 20, "level": "exploration",
        "components": {"real": [REAL_TICDAT, "json, csv, pandas, openpyxl, xlsxwriter, xlwt, xlrd", REAL_SQLITE],
                       "stub": [STUB_FS, STUB_VFS, STUB_SCHED, "the Foresta server, its network and the dspotconnect client library (sim/foresta.py)"]},
        "rule": "1-3 seeded clients (mode, configuration file, formats, input, older output, start time) running standard_main against one "
                "simulated server (queue, solve durations, failing solves, other users who create, rename and delete scenarios), first "
                "without faults, then with several single-client faults (lost request, lost reply, timeout, stall, kill, disk errors), each "
                "followed by a run of that client without faults. Non-trivial: every run; distinct by (formats, per client: mode, ending, "
                "per fault: kind, step, endings).",
    },
}
