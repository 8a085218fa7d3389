TRUST = ("Sound up to the abstractions in DESIGN.md (loops to a bounded fixpoint, third-party libraries modelled by "
         "name, reflection and monkey-patching excluded). ")
PATHS = ("the analysis follows every path through the operation and through every function of the package it calls, "
         "so the verdict covers all inputs; tests call each operation with a few fixed schemas.")

prop("C01", "A factory's schema is locked once it has been used",
     "Once a tic dat or pan dat factory has been used to create, read or copy a data object, no call that changes its "
     "data types, default values, foreign keys, row predicates or generator tables, and no call that adds a parameter, "
     "succeeds: it raises and the schema stays as it was. Every construction of a data object marks its factory as "
     "used, on every path.",
     ["histories", "inputs"], "any sequence of factory calls, any schema, any argument values",
     "Tests try a few late edits of one or two schemas; a guard missing on one branch, or one construction path that "
     "does not mark the factory, needs a call order nobody samples.",
     ["ticdatfactory.py", "pandatfactory.py"],
     [("used flag and its guard in the schema-editing methods", "ticdatfactory.TicDatFactory, pandatfactory.PanDatFactory"),
      ("marking on construction", "TicDat.__init__ / PanDat.__init__")],
     "interprocedural path-fact (typestate) analysis: every write to schema state is dominated by the not-yet-used test; every normal return of a data object constructor follows the mark",
     TRUST + "Decides that each write to schema state in each editor is guarded on every path, and that constructors mark the factory on every path.")

prop("C02", "A rejected schema edit leaves the factory unchanged",
     "When a call that edits a factory's schema (data types, default values, foreign keys, row predicates, parameters, "
     "generator tables) raises because its arguments are invalid, the factory's schema is exactly what it was before "
     "the call.",
     ["inputs", "fault_sequences"], "every invalid argument combination of every schema-editing call",
     "Tests check that a bad edit raises, never that nothing was written first; it must hold for each of many checks in each editor.",
     ["ticdatfactory.py", "pandatfactory.py"],
     [("argument verification before the first write", "set_data_type, set_default_value(s), add_foreign_key, add_parameter, add_data_row_predicate, set_generator_tables")],
     "interprocedural path analysis: no argument check (raise) reachable after a write to schema state",
     TRUST + "Decides the order of schema writes and possible package raises on every path of every editor.")

prop("C03", "A factory never hands out or keeps live references to its mutable schema",
     "Whatever a factory's public accessors return, changing the returned object (at any depth) cannot change the "
     "factory, and containers passed to a schema-editing call can be changed afterwards without changing the factory. "
     "The read-only dictionaries handed out reject every kind of modification.",
     ["histories", "programs"], "any user program that reads or edits a schema and then mutates what it got or gave",
     "Tests rarely mutate what an accessor returned; aliasing must be excluded for each accessor and each editor.",
     ["ticdatfactory.py", "pandatfactory.py", "utils.py"],
     [("deep freezing of returned values", "utils.deep_freeze, utils.FrozenDict"), ("copies of stored containers", "schema-editing methods")],
     "escape/alias analysis of accessor return values and stored argument values, with a type-shape analysis of the freezing helper",
     TRUST + "Decides for each accessor and editor whether a mutable alias of schema state escapes or is kept.")

prop("C04", "A frozen data object cannot be changed",
     "After a data object is frozen (explicitly, or as the result of a read with freezing requested), no ordinary "
     "assignment, deletion or dictionary method on the object, its tables, its rows or its foreign key link "
     "collections changes its contents: each attempt raises. This covers keyed tables, keyless tables and rows, not "
     "generic (data frame) or generator tables.",
     ["histories", "programs"], "any sequence of modification attempts on any part of a frozen object",
     "Tests try one or two assignments on a frozen object; the property ranges over each mutator of each container class.",
     ["utils.py", "ticdatfactory.py"],
     [("freezing containers and rows", "utils.freezable_factory, utils.FreezeableDict, utils.td_row_factory, TicDatFactory data class _freeze")],
     "typestate analysis: each mutator inherited from dict/object is overridden and guarded by the frozen flag; the freeze operation reaches every table, row and link collection on every path",
     TRUST + "Decides completeness of the mutator overrides and of the freeze traversal.")

prop("C05", "Diagnostics, copies, writers and constructors never modify the caller's data",
     "Finding failures or duplicates, checking, copying, comparing, cloning, obfuscating, writing out or constructing "
     "from given data never changes any table, row, data frame, list or dictionary reachable from the arguments. Only "
     "the operations documented to edit a data object in place (freezing, replacing data type failures, removing "
     "foreign key failures) do.",
     ["inputs", "histories"], "every public operation, every argument value",
     "Tests look at results, hardly ever at the arguments afterwards, and only with data that takes one path.",
     ["ticdatfactory.py", "pandatfactory.py", "csvtd.py", "jsontd.py", "xls.py", "sqlitetd.py", "mdb.py", "pgtd.py", "pandatio.py", "utils.py"],
     [("work on copies; queries with query()/apply()", "find_* methods, write_* methods, copy_* methods, data class constructors")],
     "interprocedural effect analysis: no write event whose target is reachable from a parameter of a non-editing operation",
     TRUST + "pandas calls are modelled by name (in-place forms count as writes).")

prop("C07", "Without allow_overwrite nothing that already exists is overwritten",
     "A writer called with allow_overwrite false never replaces or truncates an existing file, and never deletes, "
     "changes or adds to the rows of a database table that already holds rows: it raises before it does. This covers "
     "each file a directory writer would create and each table of a database.",
     ["inputs", "histories"], "every writer that takes allow_overwrite, every state of the file system or database, every schema",
     "Tests try an existing file for some writers; a file name computed in one place and opened in another, or one table "
     "of several, needs a state no test sets up - and the cost of a miss is the user's data.",
     ["csvtd.py", "jsontd.py", "xls.py", "sqlitetd.py", "mdb.py", "pgtd.py", "utils.py"],
     [("existence checks before opening or inserting", "write_directory, write_file, write_db_data, write_sql_file, write_data")],
     "interprocedural path-fact analysis: each file-opening call, destructive SQL statement and insert is reached only where 'allow_overwrite, or the very path/table was found absent/empty' is known",
     TRUST + "Concurrent creation of a file between the check and the write is not covered.")

prop("C08", "Nothing is written for an object that does not match the schema",
     "A writer that is given a data object that does not match its factory's schema raises before it creates a file or "
     "directory, or changes a database; every file and database effect of a writer comes after the object has been "
     "checked against the schema.",
     ["inputs"], "every writer (tic dat and pan dat), every object, all option combinations",
     "Tests write valid objects; an effect that precedes the check on one branch is invisible to them.",
     ["csvtd.py", "jsontd.py", "xls.py", "sqlitetd.py", "mdb.py", "pgtd.py", "pandatio.py"],
     [("good_tic_dat_object / good_pan_dat_object before the first effect", "all write_* methods")],
     "interprocedural path-fact analysis: every external effect of a writer is dominated by a successful schema check of the object",
     TRUST + "That the schema check itself is complete is not part of this property.")

prop("C09", "Every cell written out goes through the schema's write conversion",
     "Whatever the file format, table kind (keyed, keyless, generic, produced by a generator) and options, each cell "
     "value that a writer puts in a file or database has been converted by the schema's write adjustment (infinity "
     "flag, None, parameters) for the table and field it belongs to.",
     ["inputs", "programs"], "every writer, every schema and table kind, every cell",
     "Tests set an infinity flag for a few formats with one keyed table; formats times table kinds times options is "
     "a product no test suite covers, and a missed branch writes wrong data silently.",
     ["csvtd.py", "jsontd.py", "xls.py", "sqlitetd.py", "mdb.py", "pgtd.py", "pandatio.py", "ticdatfactory.py", "pandatfactory.py", "utils.py"],
     [("_infinity_flag_write_cell at each cell", "tic dat writers"), ("_pre_write_adjustment of the whole object", "pan dat writers")],
     "interprocedural taint analysis: no raw cell of the data object reaches a file or database call unadjusted; the table and field arguments of the adjustment are those the cell was taken from",
     TRUST + "json documents for opalytics and ampl are outside this property.")

prop("C10", "Every cell read goes through the schema's read conversion",
     "Whatever the source format, table kind (keyed, keyless, generic, generator) and options, each primary key and data "
     "cell that a reader puts in a data object has been converted by the schema's read adjustment (infinity flag, date "
     "times, mixed-type fields) for the table it is in; this includes the rows a generator table produces later, and "
     "reading through pandas, which uses the same full schema. Pan dat readers return the adjusted object.",
     ["inputs", "programs"], "every reader, every schema and table kind, every cell",
     "Tests read a keyed table or two per format; formats times table kinds times options is a product no test covers.",
     ["csvtd.py", "jsontd.py", "xls.py", "sqlitetd.py", "mdb.py", "pgtd.py", "pandatio.py", "ticdatfactory.py", "pandatfactory.py"],
     [("_general_read_cell at each cell", "tic dat readers, generator functions"),
      ("_general_post_read_adjustment of the whole object", "pan dat readers")],
     "interprocedural value-flow analysis: every leaf of every table handed to the data class (closures of generator tables entered) is the result of the read adjustment, asked for that table",
     TRUST + "That the adjustment itself converts correctly is C11.")

prop("C14", "Readers type the parameters table and freeze the result when asked to",
     "Every tic dat reader (csv, json, Excel, SQLite, SQL text, Access, PostgreSQL), on every option path, returns an object "
     "whose parameters table has been converted back from text to the declared parameter types, and which is frozen "
     "whenever freeze_it is true.",
     ["inputs"], "every tic dat reader, every option combination, every schema",
     "Tests ask for a frozen result, or use parameters, with one option set per format; a dropped argument on one of several return paths is not seen.",
     ["csvtd.py", "jsontd.py", "xls.py", "sqlitetd.py", "mdb.py", "pgtd.py", "ticdatfactory.py", "pandatfactory.py"],
     [("_parameter_table_post_read_adjustment and freeze_me at the end of each reader", "create_tic_dat, create_tic_dat_from_sql, copy_to_tic_dat")],
     "interprocedural path-fact analysis of every return of every reader",
     TRUST + "")

prop("C18", "Data values never become part of SQL statements",
     "Reading and writing databases, every value of the data object is passed to the database as a bound parameter and "
     "never pasted into a statement. In SQL script files each value is a literal of its own kind: strings in quotes "
     "and escaped, dates in quotes, nothing else able to be a string or date written bare; and a script is run as a "
     "whole, not cut at characters that may be inside strings. Table and field names are bracketed (SQLite, and Access "
     "fields) or made legal by the PostgreSQL name conversion wherever they occur in a statement.",
     ["inputs"], "every database reader and writer, every cell value, every legal table and field name",
     "Tests use tame values and names; one statement out of many that pastes instead of binding needs the odd value in the odd place.",
     ["sqlitetd.py", "mdb.py", "pgtd.py", "pandatio.py"],
     [("placeholders and bound rows", "_get_data / write_db_data / write_data / write_file"),
      ("literal formatting of SQL scripts", "sqlitetd._insert_format"), ("name quoting", "_brackets, pgtd._pg_name")],
     "interprocedural taint analysis of statement texts: cells and names are followed into each executed statement and each script line; literal formatting is judged per type-test path",
     TRUST + "How the escape function treats runs of consecutive quotes is a documented limitation of the package and not covered.")

prop("C28", "Reading never changes what is read",
     "Reading a data object, and looking for duplicates in a file or database, never creates, truncates or changes a "
     "file, and runs nothing but queries on the caller's database; in particular reading a path that does not exist "
     "does not leave an empty database behind. Generator tables, which read later, keep to this too.",
     ["inputs", "histories"], "every reading operation of every format, any source including missing and malformed ones",
     "Tests compare what was read, not the source afterwards.",
     ["csvtd.py", "jsontd.py", "xls.py", "sqlitetd.py", "mdb.py", "pgtd.py", "pandatio.py"],
     [("existence checks before connecting; select-only statements", "create_*, find_duplicates, _check_tables_fields")],
     "interprocedural effect analysis: every file, connection and SQL effect reachable from a reading operation (closures of generator tables entered) is read-only",
     TRUST)

prop("C11", "The infinity flag converts exactly what it should, both ways",
     "With a number as the infinity flag, writing turns infinity and minus infinity into the flag and its negation, and "
     "reading turns every number at or beyond the flag (or its negation) into the infinities; with None as the flag, the "
     "one infinity that a field's data type allows (when the type does not allow None) is written as None and read back "
     "from None; without a flag nothing changes. Everything else, NaN, None, texts and the numbers in between, is left as it "
     "is, the parameters table is never touched, and this holds for every column of every other table, typed or untyped, "
     "primary key or data field, generic tables included. Texts of numbers in mixed type fields count as numbers when read.",
     ["inputs"], "every cell value, table, column, data type and flag setting",
     "Tests write a couple of infinities with a flag of 999999999; NaN, the boundary itself, minus infinity alone in a column, "
     "untyped columns and the None flag with each data type are a product they do not cover.",
     ["ticdatfactory.py", "pandatfactory.py", "utils.py"],
     [("TicDatFactory._infinity_flag_write_cell, _general_read_cell", "each tic dat cell"),
      ("PanDatFactory._pre_write_adjustment, _general_post_read_adjustment", "whole pan dat objects"),
      ("_none_as_infinity_bias", "both factories")],
     "abstract interpretation of the conversions over classes of cell values (position of a number relative to the flag, NaN, None, texts, dates), each class and kind of flag followed through every path",
     TRUST + "pandas operations are read element by element; the date parser is taken to be either able or unable to read a text.")

prop("C17", "The failure scans miss nothing",
     "Without a limit on the number of failures, every scan for failures of both factories reports every failing row or cell: a "
     "cell that is not of its data type, a row whose predicate is false (or, for error message predicates, anything but True), a "
     "row whose foreign key has no match, rows that share a primary key. Each is reported under its table and field or predicate "
     "name, and so that the row can be told: by its primary key, by its position in a table without one, or as a mask or "
     "selection of the failing rows. A row predicate is given the whole row, primary key fields included. A primary key field "
     "without a data type fails exactly when null, a data field without one never.",
     ["inputs"], "every schema, data object, data type, predicate and foreign key, and each row or cell of it",
     "Tests plant a handful of failures in tables of a few shapes; that a particular path loses one arbitrary failure shows only "
     "when the failure sits where no test put one.",
     ["ticdatfactory.py", "pandatfactory.py", "utils.py"],
     [("find_data_type_failures, find_data_row_failures, find_foreign_key_failures", "TicDatFactory, PanDatFactory"),
      ("find_duplicates", "PanDatFactory, utils")],
     "abstract interpretation following one arbitrary failing row through every path of each scan: container-membership typestate (may lack the row / holds it) with must-reaching loops",
     TRUST + "The joins by which pan dat foreign key failures are found, and pandas' own duplicated(), are taken to be right.")

prop("C21", "In-place repairs change what fails, and only that",
     "replace_data_type_failures and remove_foreign_key_failures of either factory edit the data object they are given and return it: "
     "every cell the scan of data types finds failing and that has a replacement is set to the replacement given for that table and "
     "field, or its default (TicDatFactory: never a primary key cell), every row the scan of foreign keys finds failing is removed, "
     "once, with cascading until a scan of what is left finds nothing; every other cell and row stays as it was. A replacement that is "
     "itself of the wrong type, or data that is not of the schema, is refused before anything is changed.",
     ["inputs"], "every schema and data object, whichever cells and rows fail, for however many reasons, and every set of replacements",
     "A test repairs a few small data objects; the property is about any combination of failures, and about the errors raised half way.",
     ["ticdatfactory.py", "pandatfactory.py"],
     [("replace_data_type_failures, remove_foreign_key_failures", "TicDatFactory, PanDatFactory")],
     "abstract interpretation following one arbitrary failing (or good) cell or row through the repair, per scenario (may-be-left mark, effects on the "
     "data object, staleness of the last scan, order of positional removals)",
     TRUST + "What the scans find is taken as given (C17 is about the data type scan; the foreign key scan's join is not decided).")
prop("C16", "Exceptions in row predicates are recorded or raised as asked",
     "In find_data_row_failures of both factories, under 'Handled as Failure' an exception in a row predicate makes its row a "
     "failure, and an exception in a predicate's keyword argument maker (or in the conversion of the data for it), or a maker "
     "that does not give a dictionary, makes an entry for that predicate; under 'Unhandled' the exception comes out; "
     "'__debug__' means 'Unhandled' when __debug__ is true and 'Handled as Failure' when it is not.",
     ["inputs", "faults"], "every predicate, keyword argument maker and converter that may raise, both kinds of response, every exception_handling",
     "Tests raise from a predicate or two on a couple of rows under one setting; each stage that may raise times each setting is not covered, and __debug__ is never false in a test run.",
     ["ticdatfactory.py", "pandatfactory.py"],
     [("find_data_row_failures", "TicDatFactory, PanDatFactory")],
     "abstract interpretation of the scan with each user function in turn raising for one arbitrary row: exceptional paths are followed to a record or out of the scan",
     TRUST)

prop("C15", "A copy of a factory is complete",
     "create_from_full_schema(factory.schema(include_ancillary_info=True)) has everything the schema documents: tables and fields, "
     "foreign keys, data types, default values, parameters, the infinity, trailing rows, duplicates and automunge settings, tool "
     "tips. clone() of either factory carries, beyond that, everything the editing methods can have put into the factory (row "
     "predicates with all their settings, ampl prefix, generator tables, foreign key links, the converter of its predicates); "
     "table restrictions take away nothing of a table that is kept, and clone_add_a_table, clone_add_a_column, "
     "clone_remove_a_column, clone_rename_a_column nothing but what they are asked to change: a renamed column keeps its data "
     "type, default value, tool tip and foreign keys.",
     ["inputs"], "every factory, whatever its schema and the order of the edits that made it",
     "A test compares the copy of a handful of schemas in the attributes it thought of; the property is about every attribute, on every path.",
     ["ticdatfactory.py", "pandatfactory.py", "utils.py"],
     [("schema, create_from_full_schema, clone", "TicDatFactory, PanDatFactory"),
      ("clone_a_anchillary_info_schema, clone_add_a_table, clone_add_a_column, clone_remove_a_column, clone_rename_a_column", "utils")],
     "attribute inventory from an effect analysis of the editing methods, then abstract interpretation following one arbitrary entry of each attribute into and out of the schema dictionary and through clone (may-be-lost typestate, must-reaching loops)",
     TRUST + "User-given clone_factory functions are not covered, nor the kwargs-making predicates clone documents it leaves behind when it changes the kind of factory without convert_dat.")

prop("C23", "A remembered result is what would be computed now",
     "Wherever the package keeps a result to use it again (how a field's cells are to be read from csv or Excel, which infinity "
     "a field's None stands for, the keyword arguments made for row predicates, the look up tables of foreign keys, the index of "
     "a Slicer, or a cache added later), using it gives what computing it again would give: its key tells apart everything the "
     "result depends on, it is looked up under the key it was filled for, it does not survive a change of the schema it was "
     "computed from, and the caller cannot change it by changing an answer he was given.",
     ["inputs", "histories"], "every cache of the package, every sequence of calls on one factory or Slicer, every schema and data object",
     "A cache is wrong only for a second use: another table with the same field name, a read after find_duplicates and a change of "
     "the defaults, two predicates with one maker. Tests use a fresh factory for each case.",
     ["csvtd.py", "xls.py", "ticdatfactory.py", "pandatfactory.py", "utils.py"],
     [("_get_dv_dt", "CsvTicFactory, XlsTicFactory"), ("_none_as_infinity_bias, find_data_row_failures", "TicDatFactory, PanDatFactory"),
      ("find_foreign_key_failures", "TicDatFactory"), ("slice", "utils.Slicer"), ("dat_version_of_func", "utils._integrity_solve")],
     "syntactic discovery of fill-on-miss tables, then a dependency analysis (what a fill uses against what the key determines over the life of the table), an effect analysis of the methods that change what was read, and an escape rule",
     TRUST + "Files and databases that change during a call are outside the property, as is what user functions do with shared state.")

prop("C19", "Writing and reading back gives the same data",
     "Data that passes the schema's checks and is written to a file or database and read back by the same factory equals the data "
     "that was written, up to the documented differences between formats.",
     ["inputs"], "every schema, every data object, every format",
     "Tests write and read back a few data sets; equality depends on the values, on pandas and on each database driver.",
     ["csvtd.py", "xls.py", "jsontd.py", "sqlitetd.py", "mdb.py", "pgtd.py", "pandatio.py"], [("write_*, create_tic_dat, create_pan_dat", "all reader and writer classes")],
     na="whether a value survives depends on what csv, openpyxl, json, sqlite3 and pandas do with it at run time, which no static "
        "argument over this repository's source bounds; the parts of the round trip this repository decides itself are C09, C10, C11 and C18")

prop("C20", "Obfuscation keeps the structure of the data",
     "obfusimplify returns data with the same rows, numbers and foreign key relations, in which every text key is consistently "
     "replaced by a new one, and a dictionary that maps each new name back to the old.",
     ["inputs"], "every data object without integrity failures",
     "Tests compare one data set; the renaming is a bijection built from the values of the data.",
     ["ticdatfactory.py", "pandatfactory.py"], [("obfusimplify", "TicDatFactory, PanDatFactory")],
     na="that the generated names are distinct and the renaming is one to one is a statement about arbitrary values and counters at "
        "run time; an abstraction that keeps only which field a value comes from cannot tell a bijection from a collision")

prop("C22", "A Slicer returns exactly the matching keys",
     "Slicer(keys).slice(*pattern) returns every key that agrees with the pattern in the positions without a wildcard, each once, "
     "and nothing else.",
     ["inputs"], "every set of keys, every pattern",
     "Tests slice a few sets; the answer is a set comprehension over run time keys.",
     ["utils.py"], [("slice", "utils.Slicer")],
     na="the equality of the answer with a filter of run time keys is functional correctness over values (and the gurobi tuplelist it "
        "delegates to when installed); only its caching is within reach of static analysis, and that is C23")

prop("C25", "Copying to and from AMPL keeps keys and values",
     "What copy_to_ampl puts into AMPL data frames, and what copy_from_ampl_variables puts into tables, are the keys and values of "
     "the source, in the columns of the schema.",
     ["inputs"], "every schema and data object, every AMPL variable",
     "Needs AMPL; the tests that do are skipped without it.",
     ["ticdatfactory.py", "pandatfactory.py"], [("copy_to_ampl, copy_from_ampl_variables", "TicDatFactory, PanDatFactory")],
     na="the AMPL data frame and variable interfaces are those of amplpy, which is not installed here, so that neither a model of them "
        "nor a demonstration of a violation could be checked against the real thing")
