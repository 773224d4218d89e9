#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json, so that both stay in step with the checks."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SCHED = "stateless model checking of the real program under a controlled scheduler, " \
        "all schedules up to a preemption/delay bound"
FAULT = "stateless model checking of the real program with enumerated faults, crash points and " \
        "schedules"
INPUT = "bounded-exhaustive explicit-state enumeration of inputs on the real program under the " \
        "controlled scheduler, against a reference model"
HIST = "explicit-state enumeration of all histories up to a depth, each run on the real program " \
       "and compared with a reference model"

# (id, title, statement, over, quantifier text, why tests can't, files, mechanism, technique, note)
P = []


def prop(ident, title, statement, over, text, why, files, mechanism, technique, note, observe=()):
    P.append((ident, title, statement, over, text, why, files, mechanism, technique, note, observe))


RUN = "Trusts the scheduler and the stand-ins of ffmc (multiprocessing, time, files, subprocess), " \
      "which are revalidated by runs without them. "

prop("C01", "A search reports every matching entry exactly once, however its jobs run",
     "A search that ends with exit status 0 has reported every entry below its start directories "
     "that matches, and each of them once, independent of the number of jobs, of how the jobs are "
     "scheduled, of how slow the tests are and of how many directories and entries there are.  "
     "This is true for plain, sorted, counted and limited searches and for those with "
     "several start directories.",
     ["schedules", "configurations"],
     "all interleavings of the jobs and the main process within the bounds; -j1 to -j4, trees of "
     "different shape, plain/sort/count/limit/several directories",
     "The tests run each search once under whatever schedule the machine picks; lost or repeated "
     "work at the end of the search or while work is handed over needs particular interleavings.",
     ["libff/walk.py", "libff/context.py", "libff/processing.py", "libff/main.py"],
     [("work queue and the handing over of directories and entries", "libff/walk.py FilesystemWalker"),
      ("agreement on the end of the search", "libff/context.py Context.barrier_wait"),
      ("collecting of results", "libff/processing.py CollectiveProcessing")],
     SCHED, RUN + "Bounded: small trees, 1-4 jobs, preemption/delay bound of 1-2 (quick), 2-3 (thorough).")

prop("C02", "Every search comes to an end",
     "Each invocation ends by itself, whatever the order in which its processes run and whatever "
     "fails on the way: a test that raises, a job that dies at any point, a closed "
     "standard output, an interrupt from the keyboard, a directory that cannot be read or a command that cannot "
     "be started.  No process is left running afterwards.",
     ["schedules", "fault_sequences", "crash_points"],
     "all interleavings within the bounds, with each single fault at each point where it can occur",
     "The tests neither kill jobs nor control the schedule; a hang needs a fault or a wake-up at one "
     "particular step.",
     ["libff/walk.py", "libff/context.py", "libff/processing.py", "libff/main.py", "libff/console.py"],
     [("stop event and barrier", "libff/context.py"), ("watching the jobs", "libff/processing.py"),
      ("job loop", "libff/walk.py FilesystemWalker.loop")],
     FAULT, RUN + "Termination is judged in virtual time (60 s); bounded as C01, one fault per run.")

prop("C03", "Output records are never torn, merged or mixed up",
     "Everything written to standard output is a sequence of whole records, each of exactly one "
     "entry with its own values, in every output format and however many jobs write concurrently "
     "and how much they write.  A reader of standard output that closes it early gets a prefix of such a "
     "sequence.",
     ["schedules"],
     "all interleavings of the writing processes within the bounds; all formats; small and big records",
     "Mixed records need two processes that write at the same moment, which no test arranges.",
     ["libff/console.py", "libff/processing.py", "libff/walk.py"],
     [("buffering and locking of the output", "libff/console.py Console")],
     SCHED, RUN + "Bounded as C01.")

prop("C04", "--exec runs one command per matching entry and reports failures",
     "With --exec a command is run exactly once for each matching entry, and the exit status is 0 only "
     "if all commands succeeded, and the documented one for subprocess errors if any failed or could not be started.  With --halt=soon no new command "
     "is started once a failure was noticed but the running ones are finished, with --halt=now the running ones are "
     "terminated, and otherwise all of them run; "
     "--sort, --limit and --exec together start the commands in sorted order up to the limit.",
     ["schedules", "fault_sequences"],
     "all interleavings of jobs and commands within the bounds; each command may fail, be slow or not "
     "start",
     "Which commands run after a failure depends on the schedule; tests see one schedule.",
     ["libff/processing.py", "libff/walk.py", "libff/main.py", "libff/context.py"],
     [("starting commands", "libff/processing.py ImmediateExecProcessing, CollectiveExecProcessing"),
      ("--halt", "libff/processing.py")],
     FAULT, RUN + "Commands are stand-ins in virtual time; real commands are used in the validation runs.")

prop("C05", "--exec-batch passes every argument once and in order",
     "With --exec-batch the command gets every matching entry as exactly one group of arguments, none is lost, "
     "repeated or changed, in the sorted order if --sort is given, and up to --limit.  If the arguments do not fit into one command "
     "line they are split over several commands which together get all of them, and the exit status "
     "tells whether one of the commands failed.",
     ["inputs", "fault_sequences", "schedules"],
     "all numbers of entries and command line limits within the bounds, all templates of up to three "
     "arguments, each command failing or not, interleavings of the collecting processes",
     "The tests use a handful of small files and never reach the command line limit of the system.",
     ["libff/processing.py", "libff/field.py"],
     [("batches", "libff/processing.py ExecBatchProcessing"), ("templates", "libff/field.py ExecBatchFields")],
     FAULT, RUN + "The system limit is a parameter of the command stand-in.")

prop("C06", "A test expression means its boolean formula",
     "An expression of tests, AND, OR, NOT and parentheses selects exactly the entries for which its "
     "boolean formula is true, with NOT binding closer than AND and AND closer than OR, with "
     "an implied AND between adjacent terms, and independent of how expensive its tests are.  Malformed expressions "
     "are refused with a usage error and nothing is searched.",
     ["inputs"],
     "all token sequences of up to 7 tokens over three tests and the operators; all assignments",
     "The tests contain a few dozen expressions; reordering and restructuring of the formula depends on "
     "its shape and on the speed of its tests.",
     ["libff/parser.py", "libff/filter.py"],
     [("parser", "libff/parser.py"), ("evaluation and reordering", "libff/filter.py, libff/parser.py")],
     INPUT, "Complete for the grammar up to the length bound.")

prop("C07", "Every operator means what is documented for its type, in each case mode",
     "For each attribute type and operator, comparing an entry's value with a value from the command line has the "
     "documented result: ordering for numbers and strings, substring, regular expression and glob "
     "matching, bit tests for modes, membership for lists, and case handling by "
     "--case=smart, sensitive and ignore.  Operators that a type does not support are refused.",
     ["inputs"],
     "all combinations of type, operator, case mode and value from tables of boundary values",
     "The tests sample few values per operator and mostly one case mode.",
     ["libff/type.py", "libff/filter.py"],
     [("operators of the types", "libff/type.py")],
     INPUT, "Complete for the value tables.")

prop("C08", "Values are parsed from and printed to text as documented",
     "Sizes, durations, times, modes, types, booleans and numbers on the command line have the "
     "documented value with all their units, and a malformed value is refused.  Values are printed in the documented formats, "
     "and printing a value and parsing it again gives the same value where the format is exact.",
     ["inputs"],
     "all texts from the unit and format grammars with boundary numbers; several time zones",
     "The tests check a few sizes and times in one time zone.",
     ["libff/type.py", "libff/field.py"],
     [("types", "libff/type.py")],
     INPUT, "Complete for the tables of texts; the clock is virtual.")

prop("C09", "Exclusion, depth, hiding and file system limits drop exactly what they name",
     "An entry that --exclude, --depth, --hide, --one-file-system or a default exclusion rejects is not reported, an "
     "excluded directory is not descended into, and every other entry is reported, whatever the combination and order of these options.  Start directories "
     "can be given as arguments at both ends or with -D, entries are reported relative to them, and a start directory that is missing or "
     "no directory or below another one is an error.",
     ["inputs", "configurations"],
     "all combinations of the options over a tree with hidden entries, links, pipes and nested directories; all "
     "notations of start directories",
     "The tests use the options one at a time.",
     ["libff/walk.py", "libff/filter.py", "libff/arguments.py", "libff/entry.py", "libff/main.py"],
     [("pruning", "libff/walk.py, libff/filter.py Excluder"), ("start directories", "libff/arguments.py process_directories")],
     INPUT, "Complete for the combinations on one tree and a second file system.")

prop("C10", "Ignore files are honoured as git does",
     "With --ignore exactly those entries are left out that the patterns in the ignore files of their directory "
     "and its parents ignore by git's rules: anchoring, directory-only patterns, negation, `**`, escapes, "
     "precedence of later patterns and nearer files, and nothing below an ignored directory is reported.  A line that is no valid "
     "pattern ignores nothing and never makes the search fail.  (Two documented differences: a pattern that ends with `/**` "
     "also matches the directory itself, and all leading slashes are dropped.)",
     ["inputs"],
     "all patterns of up to a few segments from a token alphabet, alone, in pairs and in nested files, "
     "on a fixed tree, compared with git itself",
     "The tests contain a table of patterns; the rules interact.",
     ["libff/ignore.py", "libff/walk.py", "libff/main.py"],
     [("pattern translation", "libff/ignore.py Glob, GitIgnore"), ("nesting", "libff/walk.py")],
     INPUT, "The oracle is git check-ignore (or a reference implementation validated against it).")

prop("C11", "Sorted output is the stable order of the documented keys",
     "With --sort the entries are reported in the order of the given attributes with natural order of "
     "numbers in names, paths ordered by their components, --reverse exactly reverses this order, and "
     "entries without the attribute are at a fixed end; the order never depends on the schedule.",
     ["inputs", "schedules"],
     "all pairs and lists of sort attributes with and without --reverse over trees with ties; all interleavings within the bounds",
     "The order of equal keys and of missing values depends on arrival order, which tests do not control.",
     ["libff/processing.py", "libff/field.py"],
     [("sort keys", "libff/field.py SortFields"), ("sorting", "libff/processing.py")],
     INPUT, "Total preorder check plus schedule independence.")

prop("C12", "--limit selects exactly the requested slice",
     "--limit N, START:STOP, and PAGESIZE,PAGE report exactly those entries of the complete (sorted) result, also with "
     "negative numbers, zero, ranges beyond the end and with --exec and --exec-batch.  Malformed limits are refused.",
     ["inputs", "schedules"],
     "all limits with numbers from -7 to 7 in all notations over results of 0 to 6 entries",
     "Off-by-one and sign errors appear only at particular combinations of limit and length.",
     ["libff/arguments.py", "libff/processing.py"],
     [("type_limit", "libff/arguments.py"), ("slicing", "libff/processing.py")],
     INPUT, "Complete within the bounds.")

prop("C13", "--count counts exactly the matching entries per value",
     "--count prints for each type, or for each value of the given attributes, the number of matching entries that have it, and the right total, as text and as JSON; the "
     "counts equal those computed from the list of entries the same search prints and "
     "do not depend on the schedule.",
     ["inputs", "schedules"],
     "all lists of up to two count attributes over trees with shared, list-valued and missing values; all interleavings "
     "within the bounds",
     "The tests count one tree; merging the counts of the jobs depends on how entries were distributed.",
     ["libff/processing.py", "libff/field.py"],
     [("counting", "libff/processing.py CountProcessing"), ("fields", "libff/field.py CountFields")],
     INPUT, RUN)

prop("C14", "JSON output is valid and equals the attribute values",
     "--json and --jsonl output is always valid JSON (one document, or one per line), whatever the names "
     "of the files are, and contains for each matching entry exactly the requested attributes with "
     "their exact values.  Decoding a path gives back the name of the file.",
     ["inputs", "schedules"],
     "all names of up to two characters from an alphabet of special bytes, all attribute types, missing "
     "attributes, empty results",
     "The tests use ordinary names.",
     ["libff/processing.py", "libff/field.py", "libff/console.py"],
     [("JSON processing", "libff/processing.py JsonProcessing, JsonlProcessing")],
     INPUT, RUN)

prop("C15", "The cache never changes a result",
     "Over any history of searches and changes to files, a search that uses the cache gives the same "
     "result as the same search without it, whatever was stored by earlier searches, as long as each change of a file changes its size or modification time.  "
     "--clean-cache only removes what is out of date.",
     ["histories"],
     "all histories up to a depth of writes, removals, renames, searches and cleanups",
     "Tests run one or two searches; stale values need particular sequences.",
     ["libff/cache.py", "libff/plugin.py", "libff/attribute.py"],
     [("cache tags", "libff/cache.py Cache"), ("cached plugins", "libff/plugin.py")],
     HIST, "Histories over two files and two cached plugins; the modification time always moves.")

prop("C16", "A broken, busy or half-written cache never breaks a search",
     "If a process is killed at any point while it uses the cache, or several searches use it at the "
     "same time, or the cache file is damaged or not writable, then every later search still "
     "ends normally with the same result as one without the cache.",
     ["crash_points", "schedules", "fault_sequences"],
     "a crash before and after each operation on the cache, all interleavings of two searches within the bounds, each database operation failing",
     "The tests never crash or lock the cache.",
     ["libff/cache.py"],
     [("database", "libff/cache.py")],
     FAULT, "SQLite itself is trusted.")

prop("C17", "Attributes tell the truth about each entry",
     "Each file attribute of each kind of entry equals what the operating system says about it: type, "
     "size, times, permissions, owner, links, inode, depth, name parts, hidden, empty, executable, link target and whether it is "
     "broken, with and without following links, and missing attributes are missing rather than wrong.",
     ["inputs"],
     "all entry kinds crossed with permission bits, name shapes, sizes and nesting, all start directory notations, -L and not",
     "The tests look at ordinary files.",
     ["libff/entry.py", "libff/path.py", "libff/builtin/file.py"],
     [("Entry", "libff/entry.py")],
     INPUT, "The oracle uses os.stat and pathlib directly.")

prop("C18", "Glob patterns on the command line match exactly what is documented",
     "The glob operator follows the pattern rules of gitignore(5): `*`, `?`, `[...]` and `\\` always match the whole value, "
     "and for paths a pattern with a slash matches the whole path, one without matches the last component, `**` crosses directories, "
     "a trailing slash means directories and a leading `!` inverts.  Characters that are special in regular expressions have "
     "no meaning in it and malformed patterns match nothing but never crash.",
     ["inputs"],
     "all patterns of up to four tokens from the glob alphabet against all names of up to three characters",
     "The tests check about a dozen patterns.",
     ["libff/ignore.py", "libff/type.py"],
     [("glob", "libff/ignore.py Glob")],
     INPUT, "Oracle: an independent recursive matcher.")

prop("C19", "Any command line leads to a documented result, never to a traceback",
     "Every sequence of arguments either searches, prints help, or is refused with a one-line error and exit "
     "status 2 (or another documented one), and never produces a Python traceback.  Options mean the same in all "
     "their spellings: long, short, bundled, with `=` or as next argument, from FF_OPTIONS, and wherever they stand.",
     ["inputs"],
     "all sequences of up to three arguments from an alphabet of all options with good and bad values",
     "The tests use correct command lines.",
     ["libff/arguments.py", "libff/main.py", "libff/argparse.py"],
     [("argument parsing", "libff/arguments.py")],
     INPUT, RUN)

prop("C20", "An unreadable or vanishing entry costs nothing but itself",
     "If any system call on one entry fails, because it vanished, is not permitted or has an I/O error, or if its contents "
     "cannot be parsed by a plugin, only that entry and what is "
     "below it may be missing from the result; all other entries are reported with their values and the search ends normally with status 0.  "
     "If an entry or a directory cannot be read for another reason than that it vanished or is forbidden, a warning says so.",
     ["fault_sequences", "inputs"],
     "each system call on each entry below the start directory failing with each error, or the entry, or its directory, being "
     "removed before or after the call; two failures per run; all truncations and single byte changes of small archives and pictures, "
     "all sequences of up to three tokens as Python files",
     "Tests have one unreadable directory at most.",
     ["libff/walk.py", "libff/entry.py", "libff/builtin/ignore.py", "libff/registry.py", "plugins/fs.py",
      "plugins/introspect.py", "plugins/tar.py"],
     [("error handling", "libff/walk.py scan_directory"), ("status and links", "libff/entry.py Entry"),
      ("plugins", "libff/registry.py get_data, plugins/*.py")],
     FAULT, RUN + "System calls of C libraries are only reached by really removing entries.")

prop("C21", "The API gives the same results as the command line",
     "For all options, Find yields exactly the entries and values the command line prints for the same search, "
     "searches in one process do not influence each other, whether one after another, "
     "interleaved, nested or abandoned halfway, and errors are raised as exceptions.",
     ["histories", "inputs"],
     "all pairs and interleavings of searches with different options; all single options against the CLI",
     "Tests create one Find object per process state.",
     ["libff/find.py", "libff/main.py", "libff/context.py", "libff/registry.py"],
     [("Find", "libff/find.py")],
     HIST, RUN)

prop("C22", "Optimized, debugging and profiling runs give the same result",
     "Running with Python's -O or -OO, or with --debug for any category, writes the same to "
     "standard output, starts the same commands and ends with the same exit status as a normal run, also "
     "if runs in different modes share a cache.  With --profile, which suppresses the entries, the exit status and the counts of --count "
     "are the same.  (Interrupts and plugins that yield values of the wrong type or of attributes they did not declare, which only "
     "normal runs check, are not covered.)",
     ["configurations", "inputs", "schedules"],
     "all pairs of one of 33 sets of search options and one of 27 sets of output options in all modes; all histories of three cached "
     "searches in three modes; plugins with each of 90 faults in all modes; all schedules within the bounds in each mode",
     "The tests run in one mode.",
     ["libff/walk.py", "libff/filter.py", "libff/main.py", "libff/parser.py", "libff/processing.py",
      "libff/console.py", "libff/registry.py", "libff/cache.py"],
     [("__debug__ blocks", "libff/*.py"), ("profiling", "libff/main.py Main.walk, libff/console.py")],
     INPUT, RUN)

prop("C23", "An incomplete result is never presented as a complete one",
     "If a job crashes, is killed or fails at any point, so that entries may be missing, the exit "
     "status is that of a process failure (or the API raises an exception), never 0 or that of a search without failure.",
     ["crash_points", "fault_sequences", "schedules"],
     "a kill of each process at each of its steps, an exception in each test, under several schedules",
     "Tests never kill jobs.",
     ["libff/processing.py", "libff/walk.py", "libff/context.py", "libff/find.py"],
     [("exit code", "libff/context.py set_exitcode"), ("watching jobs", "libff/processing.py")],
     FAULT, RUN)

prop("C24", "A file reference compares with the value of the referenced file",
     "A test `attribute OP {}path` has the same result as the same test with the literal value of that "
     "attribute of the file at that path.  A reference to a missing file, to a missing attribute or to one that cannot be compared is refused with a "
     "usage error.",
     ["inputs"],
     "all attributes and operators that allow references, over files of all kinds",
     "The tests contain two references.",
     ["libff/filter.py", "libff/entry.py"],
     [("get_reference_value", "libff/filter.py")],
     INPUT, RUN)

prop("C25", "Command templates expand to exactly the documented arguments",
     "In --exec and --exec-batch commands each placeholder is replaced by the documented part of the entry's path or "
     "attribute, everything else stays as it is, doubled braces are literal braces, no "
     "argument is ever split, joined or dropped whatever characters the names contain, and an unknown or malformed "
     "placeholder is refused.",
     ["inputs"],
     "all templates of up to four tokens over all placeholders, for names of all shapes",
     "The tests check each placeholder once.",
     ["libff/field.py", "libff/arguments.py", "libff/processing.py"],
     [("templates", "libff/field.py ExecFields")],
     INPUT, RUN)

prop("C26", "The output has the requested fields, format, separators and order",
     "--output prints for each matching entry the requested attributes in the requested order, with "
     "the given separator, width, format modifiers and record terminator; entries without a requested attribute are left out "
     "unless --all is given.  Colour never changes anything but the escape sequences.",
     ["inputs"],
     "all lists of up to three fields with modifiers, separators and terminators",
     "The tests check few formats.",
     ["libff/field.py", "libff/processing.py", "libff/console.py"],
     [("fields", "libff/field.py")],
     INPUT, RUN)

prop("C27", "Attribute names resolve to one and the same attribute everywhere",
     "A short or full attribute name means the same attribute of the same plugin in tests, --output, --sort, "
     "--count, --exclude and --exec, ambiguous and unknown names are refused and never "
     "silently resolved to something else, and an additional plugin never changes the meaning of a full name.",
     ["configurations", "inputs"],
     "all sets of up to three plugins with overlapping attribute names, all places of use",
     "The tests have fixed plugins.",
     ["libff/registry.py", "libff/attribute.py"],
     [("registry", "libff/registry.py")],
     INPUT, RUN)


prop("C28", "Plugin attributes tell the truth about the contents of files",
     "The attributes of the grep, hash, tar, shebang, py, xattr, mime and git plugins equal the facts: lines and line counts, "
     "checksums, archive members, the first line's shebang, imported modules, extended attributes, content types, and which files git "
     "tracks and which of them have changed.  Files a plugin cannot handle have no such attributes.",
     ["inputs", "histories"],
     "all file contents of up to three tokens from an alphabet of special lines, all histories of git operations up to a depth",
     "The tests have one or two files for each plugin.",
     ["plugins/git.py", "plugins/hash.py", "plugins/introspect.py", "plugins/tar.py", "plugins/xattr.py",
      "libff/builtin/grep.py", "libff/builtin/mime.py"],
     [("plugins", "plugins/*.py, libff/builtin/*.py")],
     HIST, RUN + "The oracles are hashlib, tarfile, ast, git and file themselves, used directly.")

prop("C29", "The help names exactly what there is",
     "ff --help lists exactly the options that are accepted, the manual page has the same options with the same texts and all exit "
     "codes.  The help about plugins, attributes and types names every plugin, attribute, type and operator that can be used and no "
     "other, in order and with the complete text that the plugin brings along, whatever characters that text contains (and also if it "
     "has none).  A test with an attribute and an operator is accepted if and only if the operator is listed for the attribute's type.",
     ["inputs"],
     "all sets of two plugins in one or two directories, all texts of up to two (thorough three) tokens with special characters in "
     "all places, every option and all near misses, every attribute with every operator",
     "The tests only check that some help pages can be printed.",
     ["libff/help.py", "libff/arguments.py", "libff/registry.py", "libff/type.py"],
     [("help", "libff/help.py")],
     HIST, RUN + "The pages are read, as man(1) would, by a small interpreter of the roff language; what is defined is found out by "
     "executing the plugin modules without the program's registry.")


def main():
    claimed = {name[:-3].upper() for name in os.listdir(os.path.join(HERE, "checks"))
               if name.startswith("c") and name[1:-3].isdigit() and name.endswith(".py")}
    checks, missing = [], []
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as fobj:
        for (ident, title, statement, over, text, why, files, mechanism, technique, note,
             observe) in P:
            assert len(title) <= 80, title
            assert statement.count(". ") + statement.count(".  ") <= 5, ident
            for name in files:
                if "*" not in name:
                    assert os.path.exists(os.path.join("/repo", name)), name
            print(json.dumps({
                "id": ident, "title": title, "statement": " ".join(statement.split()),
                "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                "anchors": {"files": files,
                            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                            "observe_at": list(observe) or
                            ["standard output", "standard error", "exit status"],
                            "hook_needed": None}}, ensure_ascii=False), file=fobj)
            if ident in claimed:
                checks.append({
                    "property": ident, "quick_cmd": f"./check {ident}",
                    "thorough_cmd": f"VERIF_TIER=thorough ./check {ident}",
                    "technique": technique, "level": "model_checking", "level_note": note})
            else:
                missing.append({"property": ident, "reason": "no check has been built for it yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fobj:
        json.dump({"version": 1, "setup_cmd": "true", "checks": checks,
                   "not_applicable": missing,
                   "notes": "No hooks: the stand-ins are installed by the checks before libff is "
                            "imported; /repo has only fix: commits."}, fobj, indent=1)
        fobj.write("\n")


if __name__ == "__main__":
    main()
