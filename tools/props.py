"""The text of every property (source of properties.jsonl and MANIFEST.json; see make_manifest.py)."""


def P(id, title, statement, over, text, why, files, mech, **kw):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw))


PROPS = [
    P("P01", "Writing a data object to a SQLite file is all-or-nothing and durable",
      "When a TicDat object is written into a SQLite file, a later read of that file always finds either exactly the data that was "
      "there before or exactly the new data, never a mixture and never part of either, whatever I/O error, full disk, lock "
      "contention, process crash or power loss interrupts the write. A write that returned without an exception is complete, equal "
      "to the written object and survives a power loss; one that failed left the file usable, and repeating it once the fault is "
      "gone succeeds. Tables of the file that are not part of the schema are never touched.",
      ["crash_points", "fault_sequences", "inputs"],
      "every schema and data set, every prior state of the file, and every I/O step of the write as the place of a fault or crash",
      "The tests write to healthy disks and read back a few data sets; none of them interrupts a write, so no test observes any of "
      "the intermediate states that a crash or error exposes.",
      ["ticdat/sqlitetd.py", "ticdat/utils.py"],
      [("one connection context manager around deletes and inserts", "SQLiteTicFactory.write_db_data"),
       ("schema creation only where the file has none", "SQLiteTicFactory.write_db_data / write_db_schema"),
       ("row statements", "SQLiteTicFactory._get_data")]),
    P("P02", "A data-frame write to SQLite never leaves part of a table behind",
      "After a PanDat object is written into a SQLite file, however the write was interrupted by an I/O error, full disk, lock "
      "contention, crash or power loss, each table of the schema reads back as it was before, as written, or empty, never as part of "
      "the rows; in append mode a table holds its former rows, or those plus all the new ones. A write that returned normally is "
      "complete, equal to the written object and durable, repeating a failed one in replace mode completes it, and if_exists='fail' on "
      "a populated file is refused without changing it. Tables outside the schema are never touched.",
      ["crash_points", "fault_sequences", "inputs"],
      "every schema, data set, if_exists mode and prior file state, and every I/O step of the write as the place of a fault",
      "The tests write data frames to healthy disks only and read back the completed result; no test sees an interrupted write.",
      ["ticdat/pandatio.py", "ticdat/pandatfactory.py"],
      [("DataFrame.to_sql inside one connection context", "SqlPanFactory.write_file"),
       ("table names read back in any spelling", "SqlPanFactory._get_table_names")]),
    P("P03", "Acknowledged file writes read back equal, and torn files are never read as data",
      "Whenever writing a TicDat or PanDat object to JSON, CSV, .xls, .xlsx or a .sql script returns without an exception, reading the "
      "result with the same factory and the same options gives back equal data, even if faults struck during the write; writing never "
      "alters the written object. A JSON file left by a failed or crashed write, and an .xlsx file left by a crashed one, either reads "
      "back as exactly the old or exactly the new data or is refused with an exception, never read as something else. Repeating the "
      "write once the fault is gone succeeds.",
      ["inputs", "fault_sequences", "crash_points"],
      "every schema, data set, format and option the format carries faithfully, every prior state of the target, and every I/O step "
      "of the write as the place of a fault or crash",
      "The tests round-trip a few data sets through healthy files; none makes an open, write or close fail or die, so swallowed "
      "errors and half-written files are invisible to them.",
      ["ticdat/jsontd.py", "ticdat/csvtd.py", "ticdat/xls.py", "ticdat/sqlitetd.py", "ticdat/pandatio.py", "ticdat/utils.py"],
      [("JSON serialised before the target is truncated", "JsonTicFactory.write_file, JsonPanFactory.write_file"),
       ("files closed by context managers, errors propagate", "CsvTicFactory.write_directory, XlsTicFactory._xlsx_write"),
       ("infinity flag and data types applied on both ways", "TicDatFactory._infinity_flag_write_cell / _general_read_cell")]),
    P("P04", "A refused write leaves existing data exactly as it was",
      "When ticdat refuses a write - because overwriting was not permitted and the target already exists, because the object passed "
      "is not a data object of this factory, because the path is of the wrong kind or extension, or because a value cannot be stored "
      "in a JSON, SQLite or TicDat Excel target - it raises an exception and every file that existed before still has exactly the same "
      "content. Overwriting a target that exists happens only when it was permitted, under any spelling of the "
      "table names the reader accepts, and a write that is permitted succeeds.",
      ["histories", "inputs", "configurations"],
      "every history of permitted and refused writes over shared targets, with any format, data and option",
      "The tests provoke a handful of refusals and mostly check only that an exception was raised, not what became of the files, "
      "and never mix formats, spellings and prior contents.",
      ["ticdat/jsontd.py", "ticdat/csvtd.py", "ticdat/xls.py", "ticdat/sqlitetd.py", "ticdat/pandatio.py"],
      [("existence checks before anything is written", "write_file / write_directory / write_db_data / write_sql_file"),
       ("validation of the object before opening the target", "the verify calls heading each writer")]),
    P("P05", "A read either returns all the data or raises, and never changes its source",
      "Creating a TicDat or PanDat object from, or scanning for duplicate rows in, a SQLite, JSON, CSV, Excel or .sql source gives "
      "either exactly what a fault-free read of it gives or an exception: an I/O error, a lock held by another process, or "
      "a permission failure never makes a table or rows silently disappear. A missing table reads as empty; a missing field is refused, "
      "or filled in with its default if that is asked for. Reading never alters or creates any file, "
      "and once the fault is gone the same factory reads the source correctly.",
      ["fault_sequences", "inputs", "crash_points"],
      "every source, format and option, and every I/O step of the read as the place of a fault; SQLite sources include ones left by a "
      "killed writer",
      "The tests only read healthy, idle files; no test makes a read fail half-way, where a bare except or an early return turns a "
      "fault into missing data.",
      ["ticdat/jsontd.py", "ticdat/csvtd.py", "ticdat/xls.py", "ticdat/sqlitetd.py", "ticdat/pandatio.py"],
      [("only a table that truly is missing is treated as missing", "SQLiteTicFactory._get_table_names, SqlPanFactory._get_table_names"),
       ("errors of the underlying libraries propagate", "create_tic_dat / create_pan_dat / find_duplicates")]),
    P("P06", "Concurrent users of one SQLite file are linearizable",
      "When several processes or threads read, write, lock and scan the same SQLite file through TicDat objects at once, every "
      "operation behaves as if it had happened in one instant between its start and its end: a read (also one into data frames, and a "
      "duplicate scan) sees exactly the data set that was there before any write, or exactly one that some overlapping or earlier write "
      "stored whole, never a mixture, and two writers without permission to overwrite never both succeed on one file. An operation "
      "that finds the file locked waits or raises; one that is killed or fails half-way leaves the file usable by the others.",
      ["schedules", "fault_sequences", "crash_points"],
      "every interleaving of any number of such clients at every I/O step, with kills and I/O faults of any of them",
      "The tests use one process and one connection at a time; the interleavings in which check and action, or two table reads, fall "
      "into different states of the file never happen in them.",
      ["ticdat/sqlitetd.py", "ticdat/pandatio.py"],
      [("overwrite check and write under one lock", "SQLiteTicFactory.write_db_data"),
       ("all tables of a read in one transaction", "SQLiteTicFactory.create_tic_dat, SqlPanFactory.create_pan_dat")]),
    P("P07", "Threads sharing a factory get what each would get alone",
      "When several threads use one TicDatFactory or PanDatFactory at the same time - building, copying, freezing, checking integrity, "
      "repairing, converting, reading and writing files, each with its own objects and targets, or reading one shared frozen TicDat "
      "or unmodified PanDat object - every operation gives exactly the result, or the error, it gives when the thread works alone "
      "with its own factory. Afterwards the factory still gives those same results.",
      ["schedules"],
      "every interleaving, down to source lines and byte codes, of any such operations of any number of threads",
      "The tests are single threaded; lazily filled caches, first-use flags and shared module state are only wrong under interleavings "
      "they never run.",
      ["ticdat/ticdatfactory.py", "ticdat/pandatfactory.py", "ticdat/utils.py", "ticdat/csvtd.py", "ticdat/xls.py"],
      [("first use of a factory", "TicDatFactory._trigger_has_been_used"),
       ("caches filled on demand", "CsvTicFactory._get_dv_dt, XlsTicFactory._get_dv_dt, TicDatFactory._none_as_infinity_bias")]),
    P("P08", "Iterating a generator table yields every row or raises, every time",
      "A generator table of a TicDat object read from CSV, SQLite or Excel yields, on every call and however iterations are "
      "interleaved, abandoned or spread over threads, exactly the rows its source holds, in order, or raises: an I/O error or a "
      "vanished source never just ends an iteration early, later calls are complete again, and iterating never alters or creates a file. Writing an "
      "object with generator tables, to another target or over its own source, stores every row or raises; an exception raised by a "
      "user-supplied generator surfaces from the write and leaves a SQLite target unchanged.",
      ["histories", "schedules", "fault_sequences"],
      "every schema, source and history of whole, partial, interleaved, abandoned, concurrent and faulty iterations and writes",
      "The tests iterate generators once or twice over healthy files and never write an object over the source it streams from.",
      ["ticdat/csvtd.py", "ticdat/sqlitetd.py", "ticdat/xls.py", "ticdat/ticdatfactory.py"],
      [("a generator function that reopens its source", "CsvTicFactory._create_table, SQLiteTicFactory._create_gen_obj, "
        "XlsTicFactory._create_generator_obj"),
       ("generators consumed while the target is written", "write_directory / write_db_data / write_file")]),
    P("P09", "Writing to PostgreSQL is complete or raises, and never leaves part of a table",
      "When writing a TicDat or PanDat object to PostgreSQL returns normally, its rows are stored and committed, tables marked append "
      "keep their former rows and no other table is touched, whatever a statement, commit or connection did - unless a progress callback "
      "stopped it; the created tables have the schema's types and defaults. A write the server refuses, a callback's exception, an error, lost connection or killed client surfaces; on a "
      "transactional connection each table then holds what it held, nothing (if not marked append), or all its rows - for TicDat "
      "all tables the new ones or none - and repeating completes it. Reads and duplicate scans give everything or raise, and change nothing.",
      ["fault_sequences", "crash_points", "inputs", "configurations"],
      "every schema, data set, sequence of writes and reads, delete/append choice, kind of connection and statement, fetch or commit as the "
      "place of a fault",
      "The repository's PostgreSQL tests need a server package that is mostly absent, and then use a healthy one; no test has a "
      "statement, commit or connection fail.",
      ["ticdat/pgtd.py", "ticdat/pandatfactory.py"],
      [("tables in foreign key order", "_PostgresFactory._ordered_tables"),
       ("deletes before inserts, children first", "_PostgresFactory._handle_prexisting_rows"),
       ("inserts and the final commit", "PostgresTicFactory.write_data / PostgresPanFactory.write_data"),
       ("reads per table, with the active filter", "_create_tic_dat_from_con / create_pan_dat")]),
    P("P10", "An Access write that returns is complete, and failures never pass for data",
      "For every TicDat schema and data an Access file can hold, a write through the ODBC driver that returns normally is complete and "
      "reads back equal. A driver call that fails, or a crash, at any point never passes for an empty table, missing rows or a missing duplicate: the call "
      "raises, reading changes nothing, and after an interrupted write each table holds what it held or else only rows of the data being written, no "
      "other table is changed, and writing again completes it. A write or schema that is refused (rows not to be overwritten, table missing in the "
      "file, bad type, path or object) changes nothing.", ["crash_points", "fault_sequences", "inputs"],
      "every schema, data set, state of the file, and driver call at which a fault or crash strikes",
      "The tests skip Access where there is no driver, and let no driver call fail.", ["ticdat/mdb.py"],
      [("statements and commits", "MdbTicFactory.write_file"), ("matching of tables and fields", "MdbTicFactory._check_tables_fields"),
       ("reading", "MdbTicFactory._create_tic_dat, find_duplicates"), ("field types", "MdbTicFactory.write_schema")]),
    P("P11", "The command-line driver solves exactly the input data and stores the solution",
      "standard_main calls solve at most once, and only with exactly the data of its input, never with a missing, partly read or - for "
      "TicDat schemas, formats other than .sql - duplicate-carrying input. With an errors target it first writes there exactly the integrity "
      "failures of the input (duplicates, data types, foreign keys, row predicates) and does not solve if there is any. A solution is "
      "stored in the output whole or an exception is raised, whatever I/O step fails; exceptions of solve surface, and without a solution "
      "the output is left as it was. Running it again once a fault is gone completes.",
      ["fault_sequences", "inputs", "configurations", "crash_points"],
      "every pair of schemas, input, file formats, command line, behaviour of solve, and I/O step of the whole run as the place of a fault",
      "The tests run the driver on a few healthy files with a solve that works; none has input, errors or output files fail half-way, or "
      "checks what solve was given.",
      ["ticdat/utils.py"],
      [("duplicate check and read of the input", "utils._get_dat_object"), ("integrity errors", "utils._integrity_solve"),
       ("order of read, check, solve and write", "utils.standard_main")]),
    P("P12", "Solving on a Foresta server stores exactly the finished solution of the input",
      "With a Foresta configuration standard_main never solves locally; it uploads exactly the input's data, once, under the configured "
      "name, launches one solve of just that scenario, asks about it at intervals and stores that scenario's solution only when it is "
      "finished, whatever other clients and users do to the server. Upload-only mode launches and stores nothing; download mode needs no "
      "input and stores the named scenario's solution. Requests that fail surface as exceptions and leave the output as it was; a bad "
      "configuration, or one combined with an errors target, contacts no server. It ends soon after the solve does.",
      ["fault_sequences", "schedules", "histories", "configurations"],
      "every data set, mode and configuration file, number of clients, timing of the server and its users, and request, reply or I/O step as the "
      "place of a fault or kill",
      "The only test needs a live server and a token and is skipped; it sees one client, no other user and no failing request.",
      ["ticdat/utils.py"],
      [("configuration, connection and the three modes", "utils.standard_main"), ("polling", "utils.standard_main, foresta_based_solve")]),
    P("P13", "Row checks report exactly the failing rows, whatever user callbacks do",
      "Finding data row failures in a TicDat or PanDat object reports exactly the rows for which a row predicate says so, per table and "
      "predicate, whatever the user-supplied predicates, argument makers and converters do: with exceptions handled, a predicate that "
      "raises makes that row a failure and a maker or converter that raises or returns no dictionary makes one entry for the whole table, "
      "without disturbing other rows, predicates or later checks; unhandled, the exception itself surfaces. The check calls each maker "
      "once, with the data as it is now, never changes the data, and with a limit on failures reports exactly that many genuine ones, or all "
      "if there are fewer.",
      ["fault_sequences", "inputs", "histories"],
      "every schema, data set, set of predicates and makers, sequence of checks and edits, and place where a callback raises or "
      "returns something odd",
      "The tests use a few predicates that behave; a callback that fails in one row of one check, next to others that do not, combined "
      "with limits, converters and repeated checks, is not among them.",
      ["ticdat/ticdatfactory.py", "ticdat/pandatfactory.py", "ticdat/utils.py"],
      [("row predicate evaluation", "TicDatFactory.find_data_row_failures, PanDatFactory.find_data_row_failures"),
       ("row-wise application with early end", "utils.faster_df_apply")]),
    P("P14", "A factory is exactly the configuration it accepted",
      "Once a TicDatFactory or PanDatFactory has built a data object, its data types, default values, foreign keys, generator tables and "
      "row predicates can no longer be changed and no parameter can be added, and every configuration call that is refused, then or "
      "earlier, changes nothing. The factory's behaviour depends on the configuration calls it accepted and nothing else: duplicate "
      "scans, reads, writes and integrity checks done in between, successful or broken off by errors, what callers do to the "
      "schemas and settings it returned, and what is done to its clones leave no trace. A clone - also one of the other kind, of some tables, "
      "or with a table or column added, removed or renamed - and a factory made from its full schema carry exactly that configuration.",
      ["histories", "fault_sequences"],
      "every history of accepted and refused configuration calls mixed with uses of the factory, some of them hit by I/O faults",
      "The tests configure a factory fully and then use it; refused calls, scans before configuration, and operations broken off "
      "half-way do not occur in them in combination.",
      ["ticdat/ticdatfactory.py", "ticdat/pandatfactory.py", "ticdat/csvtd.py", "ticdat/xls.py"],
      [("has-been-used lock", "TicDatFactory / PanDatFactory _has_been_used"),
       ("caches dropped when the configuration changes", "TicDatFactory._clear_type_caches")]),
    P("P15", "A frozen data object never changes",
      "Once a TicDat object is frozen - by freeze_me, or by a read or copy with freeze_it - nothing changes it any more: every direct edit of "
      "it, of its tables (the data frames of generic tables aside), rows and foreign-key links, also through references taken before, raises or has no effect on it, by any "
      "thread, and no factory operation, failed write, or edit of the containers it was built from or of copies of it alters what it "
      "shows. Freezing changes no data; reading a missing key of a frozen table raises and adds nothing.",
      ["histories", "schedules", "fault_sequences"],
      "every schema, data set, way of freezing, and history of edits, factory operations and faulty writes by any number of threads",
      "The tests try a few mutators on a frozen object; the other mutators, the link tables, older references and factory operations "
      "after a fault are left out.",
      ["ticdat/utils.py", "ticdat/ticdatfactory.py"],
      [("frozen dictionaries and rows", "FreezeableDict, td_row_factory"), ("freezing of tables, rows and links", "TicDat._freeze")]),
    P("P16", "A slicer always returns exactly the matching tuples",
      "A slice returns exactly the tuples the slicer was made from that agree with the pattern in every position that is not a wildcard, on any "
      "sequence of slices and clears, in any number of threads at once, and whatever callers do to earlier results or to the containers "
      "the slicer was made from. A slice that is broken off by an exception surfaces it and leaves all later slices right.",
      ["histories", "schedules", "fault_sequences"], "every collection of tuples, sequence of slices and clears, interleaving of threads and "
      "place where an exception breaks a slice off",
      "The tests slice a few tuples in one thread, with nothing failing.", ["ticdat/utils.py"],
      [("indexes made on first use", "Slicer.slice"), ("indexes dropped", "Slicer.clear")]),
    P("P17", "Integrity checks are exact, repairs can be broken off and repeated",
      "On any history of edits, checks and repairs of one data object, finding data-type failures, foreign-key failures and duplicates reports "
      "exactly the rows that break the declared types, foreign keys and primary keys (no more than the limit asked for), without changing the data; "
      "replacing data-type failures changes exactly the failing cells to valid replacements, or is refused changing nothing, and removing foreign-key "
      "failures removes exactly the rows that failed or came to fail. A check that an exception breaks off at any point changes nothing, a repair that "
      "is broken off leaves nothing but part of what it had to do, and repeating it completes it.",
      ["histories", "fault_sequences", "inputs"], "every schema, foreign-key graph, table content (and data-frame index), history of operations, and "
      "place where an exception breaks one of them off",
      "The tests check and repair a few tables; none interrupts a check or repair, or follows it with others on the same object.",
      ["ticdat/ticdatfactory.py", "ticdat/pandatfactory.py", "ticdat/utils.py"],
      [("failures by type", "find_data_type_failures / replace_data_type_failures, TypeDictionary.valid_data"),
       ("failures by key", "find_foreign_key_failures / remove_foreign_key_failures"), ("duplicates", "PanDatFactory.find_duplicates")]),
    P("P18", "Copies and conversions are complete and share nothing with their sources",
      "Every data object that is copied, converted between dictionaries and data frames, constructed from a user's containers, frozen or obfuscated "
      "holds exactly the rows and values of its source (defaults where a field was left out, links that lead to its own rows, and, for an obfuscation, "
      "entity names replaced one-to-one and in step with all foreign keys that refer to them). On any history of such derivations, edits, refused edits "
      "and further use of the containers, an operation changes no other object and no container than the one it is applied to, and an edit is "
      "done exactly or refused changing nothing. One that an exception breaks off at any point leaves every object as it was, and repeating it completes it.",
      ["histories", "fault_sequences", "inputs"], "every schema, data, history of operations on a growing set of objects, and place where an exception "
      "breaks one of them off",
      "The tests make single copies and compare them; none goes on editing sources, copies and containers in turn, or interrupts an operation.",
      ["ticdat/ticdatfactory.py", "ticdat/pandatfactory.py", "ticdat/utils.py"],
      [("copies", "copy_tic_dat, copy_pan_dat, copy_to_pandas, copy_to_tic_dat"), ("constructors and rows", "TicDat, PanDat, td_row_factory"),
       ("renaming", "TicDatFactory.obfusimplify, PanDatFactory.obfusimplify"), ("links", "TicDat._try_make_foreign_links")]),
]

NA = []
NA_REASON = {}
