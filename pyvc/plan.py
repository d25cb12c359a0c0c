"""What decides each property: contract modules, run-time evaluation budget, stated bounds and assumptions."""
TRUSTED = ["pyvc engine (symbolic executor and library contracts for Python builtins, /verif/pyvc/engine.py, pybuiltins.py)", "z3", "cvc5",
           "CPython ast parser (the verified text is parsed from /repo/ticdat/*.py on every run)"]
ASSUMPTIONS = ["floats are treated as real numbers plus the two infinities and NaN (no rounding)",
               "iteration over a dict or set visits each element once, in an order the contracts never depend on unless stated",
               "cells are scalars or opaque objects without hostile __eq__/__hash__ overrides"]
PLAN = {}


def plan(id, contracts=(), level="proof", explanation="", **kw):
    PLAN[id] = dict(contracts=list(contracts), level=level, explanation=explanation, **kw)


plan("C01", ["c01"], explanation="TypeDictionary.valid_data and safe_creator are under contract for every cell and every settings combination; the contract's "
     "postcondition is the validity rule of the property.", trusted=["date parsing (utils.dateutil_adjuster) is an external contract: readable or not"])

DATES = "date parsing (utils.dateutil_adjuster) is an external contract: readable or not"
plan("C12", ["c12", "c26"], explanation="none_as_infinity_bias, _infinity_flag_write_cell and _general_read_cell are under contract for every schema, flag, type and cell "
     "against a spec function written from the property; writing then reading is a lemma over the two contracts.", trusted=[DATES],
     bounded="that every reader and writer routes its cells through these functions is evaluated on the real file writers and readers")
plan("C26", ["c12", "c26"], explanation="read_number, the csv, Excel and SQLite cell readers, their default/type lookups and _general_read_cell are under contract for "
     "every schema, type, default and cell.", trusted=[DATES], bounded="the loops feeding cells to these readers are evaluated on real files")

DATA = ["the data object is good for the schema (good_tic_dat_object, whose acceptance rule is C07's) and shaped as the row factories build it (C07, C08)"]
plan("C02", ["c02"], explanation="find_data_type_failures is under contract for every schema, every type table (including partial key types and generic tables) and every data "
     "object: the reported pairs, rows and values are exactly the failing ones; with a limit everything reported is a genuine failure.", trusted=DATA,
     bounded="the lower bound on the number of reports under max_failures, and generator tables, are evaluated on the real code")
plan("C03", ["c02", "c03"], explanation="replace_data_type_failures is under contract against the contract of find_data_type_failures: exactly the failing data cells are replaced, by "
     "the requested value or else the default; every other cell, key and row is unchanged and nothing fails afterwards, unless the replacement itself is refused.", trusted=DATA,
     bounded="the returned object's identity through wrappers and generator tables are evaluated on the real code")

plan("C06", ["c02", "c06"], explanation="find_data_row_failures with exceptions handled as failures is under contract for every schema, set of predicates and data, both kinds of predicate: a table and "
     "predicate are reported exactly when some row fails, and the failing rows are exactly those listed (with the message for message predicates). _get_full_row, which assembles the rows handed to "
     "predicates, is under contract for every table and row.",
     trusted=DATA, bounded="unhandled exceptions, argument makers (predicate_kwargs_maker), limits and the parameters table are evaluated on the real code")
plan("C07", ["c07"], explanation="the row factory (rows made from dictionaries, sequences, scalars and nothing) and the frozen-field rows it makes are under contract for every table, "
     "field list, default and content: a row has exactly the declared fields, in declared order, with the given values or the defaults, and no field can be added or removed.",
     trusted=["opaque objects are not containers"], bounded="good_tic_dat_object's acceptance rule and pandas input are evaluated on the real code")
plan("C08", ["c08", "c07"], explanation="assigning a row under a key and looking it up are under contract for every table (generic ones apart), key and row: wrong key lengths and shapes are refused without "
     "change, an accepted assignment makes exactly that entry.", trusted=["the row factory's contract (C07)"],
     bounded="foreign key links, clones and the constructors' loops are evaluated on the real code")
plan("C09", ["c09", "c07"], explanation="every mutator a frozen row, table or data object inherits or defines (statement forms included) is under contract: on a frozen object each is refused and the "
     "content is unchanged for every key and value.", trusted=["re-calling __init__ on a frozen object is no operation of the property"],
     bounded="freeze_me reaching every table, row and generator, and deep_freeze on nested containers, are evaluated on the real code")
plan("C23", ["c23", "c19"], explanation="create_full_parameters_dict and the parameter setters are under contract for every parameter, type, default and table content.",
     trusted=[DATES, "good_tic_dat_object (C07)"], bounded="the adjustment after reading and PanDatFactory's version are evaluated on the real code")
plan("C28", ["c28", "c19"], explanation="the listing of foreign keys is under contract for every schema: exactly the declared mappings, in declared order, with the cardinality fixed by coverage of the "
     "primary keys; adding them by add_foreign_key's contract (C19).", trusted=["distinct mappings give distinct ForeignKey records (the function's own final assertion)",
     "class invariant of _foreign_keys: established by add_foreign_key"], bounded="implied foreign keys and circle detection are evaluated on the real code")
plan("C19", ["c19"], explanation="every setter of TicDatFactory and PanDatFactory is under contract for every factory (used or not) and every argument: once used the call is refused and the "
     "schema is unchanged for every table and field; before that a refused call changes nothing, an accepted one was well formed and changes exactly what was asked.",
     trusted=["does_new_fk_complete_circle (only prints)", "TypeDictionary.safe_creator refuses or makes a type (C01)"],
     bounded="that every reader and constructor reaches _trigger_has_been_used, compound foreign key mappings, unnamed predicates and add_implied_foreign_keys before use are evaluated on the real code")
plan("C24", ["c24"], explanation="faster_df_apply, through which every DataFrame check evaluates its row rule, is under contract for every frame and row function; the checks themselves are evaluated "
     "at run time against the row table checks.", trusted=["pandas boolean indexing"], bounded="find_*_failures, replace and remove of PanDatFactory are evaluated on the real code")
plan("C25", ["c25", "c24"], explanation="the run of empty trailing rows is found by contract for every frame (binary search by induction hypothesis), and exactly those rows are dropped; the openpyxl "
     "row filter is under contract with a loop invariant.", trusted=["pandas tail/head slicing", "openpyxl row values"], bounded="the wiring into the Excel readers is evaluated on real files")
plan("C27", ["c27"], explanation="per_error, nearly_same, mip_progress and numerical_progress are under contract for all numbers; symmetry, sign and zero laws are lemmas over the contract.",
     trusted=["floats are the exact rationals of their binary value"], bounded="the solver callback factories are not covered")

CTOR = "the factory's constructor (table and field lists as given) and utils.all_subsets are trusted"
plan("C10", ["c10", "c19"], explanation="schema() in both forms and create_from_full_schema are under contract for every factory of either kind: the description lists exactly the tables, fields, types, "
     "defaults, parameters, tooltips and flags, and rebuilding makes exactly the setter calls (C19's contracts) that recreate them.", trusted=[CTOR, "foreign_keys (C28)"],
     bounded="JSON-friendly copies, cloning and row predicates are evaluated on the real code")
plan("C11", ["c11", "c10"], explanation="clone, clone_a_anchillary_info_schema and the edits adding a table, adding a column or removing one are under contract for every schema, kept tables and removed "
     "fields: exactly what mentions something removed is dropped, the rest is unchanged and in order, impossible requests are refused.",
     trusted=[CTOR, "rebuilding from the description (C10)"], bounded="clone_rename_a_column and cross-kind clones are evaluated on the real code")
plan("C15", ["c15"], explanation="find_duplicates and find_duplicates_from_dict_ticdat, which the duplicate reports of the dict, csv and Excel readers come from, are under contract for every schema and every "
     "collection of rows: exactly the repeated keys are listed, each with the number of its rows.", trusted=["a data object built without primary keys has the given rows in order (C07)"],
     bounded="the readers' loops and PanDatFactory.find_duplicates are evaluated on the real code")
plan("C14", ["c14"], explanation="_ordered_tables of the SQLite and the Postgres writer is under contract for every schema: each table once and, unless the foreign keys are circular, parents "
     "before children. The nested recursive function is verified against its own contract (induction hypothesis and a decreasing measure), its loops by an invariant.",
     trusted=["_fks lists the declared foreign keys of each table (C28)"], bounded="the SQL built from the order is executed on real databases, circular schemas included")
plan("C20", ["c20"], explanation="matching a table to its csv file (both kinds), JSON key (DataFrames) and database table (both kinds) is under contract for every set of tables and every set of "
     "candidates: the one match is found, several are refused, none leaves the table out.", trusted=["os.listdir/isfile/join and a database connection's answer are external",
     "str.lower, str.replace and joined text are uninterpreted functions (the specification uses the same ones)", "utils.all_underscore_replacements lists distinct spellings"],
     bounded="case_space_to_pretty, all_underscore_replacements, the JSON and Excel readers are evaluated on the real code")
plan("C16", ["c16"], explanation="baseConverter, which the distinct entity names come from, is under contract for every number (base 25, the one in use): digits below the base, no leading zero, weights "
     "the powers of the base down to one adding up to the number (loop invariants with ghost totals), so distinct numbers give distinct names. The renaming itself is evaluated at run time.",
     bounded="obfusimplify is evaluated on the real code: the renaming inverted on generated data")
plan("C17", ["c17"], explanation="Slicer's constructor, clear and slice are under contract for every collection, every argument and every cache satisfying the class invariant (each slicing it holds "
     "groups all the tuples), which slice preserves: the result is exactly the matching tuples, in order, each once, in a list of the caller's own. Proved for tuples of one to four entries.",
     trusted=["the accelerated path (gurobipy.tuplelist.select) is external"], bounded="tuple width up to four; the accelerated path is evaluated at run time against plain filtering")

plan("C22", ["c22"], explanation="deep_copy is under contract for every kind of container (list, tuple, set, frozenset, dict, FrozenDict), scalars, DataFrames and factories, by induction on nesting: same kind, "
     "same shape, each element copied, a container of its own, the original unchanged. copy_tic_dat and copy_pan_dat build a new object of exactly the factory's tables from the original's.",
     trusted=["hashable elements' copies equal them", "the data object constructors (C07, C08)", "DataFrame.copy(deep=True), factory.clone (C11)"],
     bounded="copy_to_pandas, copy_to_tic_dat and later mutation of either side are evaluated on the real code")

plan("C13", ["c13"], explanation="_fix_str is under contract for every text (a quantified position): every character written as itself, every quote as two, in order, one piece each; _insert_format for every "
     "kind of value and _write_data_cell: strings as a literal of the escaped text, nulls as null, infinities and dates as quoted text, booleans and numbers as Python's own text.",
     trusted=["joining the pieces' escapes is replacing every quote by two", "SQLite reads a number's Python text as that number"],
     bounded="whole statements (_get_data, _get_schema_sql) are executed by SQLite on generated data")

plan("C21", ["c21"], explanation="the TicDat writers are under contract for every schema, option, path and set of existing files: csv write_directory, json write_file, xls write_file, sqlite write_sql_file and "
     "write_db_data. At every point where a file would be opened for writing, removed or replaced, or rows deleted or inserted, overwriting is allowed or nothing is there (each is a named obligation).",
     trusted=["os.path and the database's answers are external", "the schema without generic tables writes by the same contract", "_xls_write and _xlsx_write replace nothing but the given path"],
     bounded="the writers are run on scratch directories; rows of keyed tables are left out of the csv contract (no file is opened for a row); SqlPan if_exists")

for _i in range(2, 31):
    if "C%02d" % _i not in PLAN:
        plan("C%02d" % _i, [], level="exploration", explanation="Bounded only: the contract is evaluated at run time on the real code.",
             bounded="every function of this property, over generated inputs")
PLAN = dict(sorted(PLAN.items()))
