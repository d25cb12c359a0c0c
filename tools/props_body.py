INP = ["inputs"]; IC = ["inputs", "configurations"]; IH = ["inputs", "histories"]
prop("C01", "A data type accepts exactly the cell values its settings allow",
 "A value is valid for a field's data type exactly when: it is null (None or NaN) and nulls are allowed; or the type is a datetime and the value is or can be read as a date; or it is a number (booleans are not numbers), numbers are allowed, it lies within the minimum and maximum with each end counted only if inclusive, and it is integral if integers are required (an allowed inclusive infinite maximum counts); or it is a string and all strings or that particular string are allowed. Anything else is invalid, and the check never raises. Settings passed in are normalised so that the stored type has this meaning, and a maximum below the minimum or ill-formed string list is refused.",
 INP, "every cell value (null, bool, int of any size, finite float, infinities, NaN, string, datetime, other) against every combination of type settings",
 "The tests try a few dozen value/setting pairs; the boundary interactions (exclusive bound equal to an infinity, integrality at infinities, booleans, NaN against bounds) form a product space.",
 [U, T], [("validity of one cell", U + " TypeDictionary.valid_data"), ("normalising settings", U + " TypeDictionary.safe_creator"), ("kinds of value", U + " numericish, stringish, containerish")])
prop("C02", "Data type failures of keyed and keyless row tables are reported exactly",
 "For a well-formed data object made of row tables, the data type check reports a (table, field) pair exactly when some row holds a value invalid for that field's declared type, and for that pair lists exactly the primary keys (row positions for keyless tables) of those rows and exactly their distinct bad values. Primary key fields with no declared type are treated as refusing only nulls. With a limit on the number of failures the report is a subset of the full one, holding at least the smaller of the limit and the full number of failures, and the data and schema are not changed.",
 IC, "every schema (tables, keys, data types), every data object valid for it, every failure limit",
 "Tests use fixed small schemas; which rows, key shapes and typed fields combine is unbounded.",
 [T, U], [("walk over tables, rows and typed fields", T + " TicDatFactory.find_data_type_failures"), ("row with its key fields", T + " TicDatFactory._get_full_row"), ("cell rule", U + " TypeDictionary.valid_data")])
prop("C03", "Data type repair changes exactly the failing data cells",
 "Replacing data type failures sets each data cell that fails its declared type to the supplied replacement, or else to the field's default value, and leaves every other cell, row and key unchanged, so that afterwards no data field fails its type. If a needed replacement is itself invalid for the type, or a replacement names an unknown table or a field that is not a data field, an error is raised and nothing is changed. Primary key cells are never altered.",
 IC, "every schema, data object and set of replacement values",
 "Tests look at the cells they planted; that nothing else moved, for every table shape and default, is a frame condition over all data.",
 [T], [("repair", T + " TicDatFactory.replace_data_type_failures"), ("failures", T + " TicDatFactory.find_data_type_failures")])
prop("C04", "Foreign key failures of row tables are reported exactly",
 "For a well-formed data object made of row tables, the foreign key check reports for each declared foreign key exactly the rows of the child table (by primary key, or row position if keyless) for which no parent row agrees on all the mapped fields, together with exactly their distinct child values, and reports nothing for keys without failures. This holds for single and compound mappings, listed in any order, onto primary key or data fields of the parent. With a limit on the number of failures the report is a subset holding at least the smaller of the limit and the full number.",
 IC, "every schema with foreign keys (simple, compound, self-referencing, onto key or data fields), every data object",
 "Mapping order, key shape and child/parent overlap multiply; tests cover a handful of schemas.",
 [T, U], [("look-up of child values in the parent", T + " TicDatFactory.find_foreign_key_failures"), ("field mapping", U + " ForeignKey.foreigntonativemapping")])
prop("C05", "Foreign key repair removes exactly the orphan rows",
 "Removing foreign key failures with propagation leaves a data object with no foreign key failures and removes only rows that are orphans of the original data or become orphans by those removals; the surviving rows keep their content and order. Without propagation exactly the rows reported as failing are removed.",
 IC, "every schema and data object, including cascades, self-references and several keys failing on one row",
 "Cascade depth and the overlap of failures across keys are unbounded.",
 [T], [("repair loop", T + " TicDatFactory.remove_foreign_key_failures")])
prop("C06", "Row predicate failures of row tables are reported exactly",
 "For each table and predicate, the data row check calls the predicate with the full row (key and data fields) and the arguments made for it, and reports exactly the rows (by primary key or position) for which a yes/no predicate is falsy, or for which a message predicate returns anything but True, with its message. When exceptions are handled they count as failures of that row (or, when making the arguments fails, of the whole predicate), and otherwise they reach the caller. When parameters are declared, rows of the parameters table with unknown names or invalid values are reported too, and a failure limit yields a subset of at least the smaller of the limit and the full number.",
 IC, "every schema, set of predicates (which may raise), data object, exception handling mode and failure limit",
 "Predicates are arbitrary user functions; tests pass a few well-behaved ones.",
 [T], [("row check", T + " TicDatFactory.find_data_row_failures"), ("row with its key fields", T + " TicDatFactory._get_full_row")])
prop("C07", "Rows always hold exactly their schema's data fields",
 "A row made for a table from a dictionary, a sequence or a single value holds exactly the table's data fields, in schema order; fields missing from a dictionary take the declared default, or else zero. Unknown fields or the wrong number of values are refused. Reading returns the last value written to that field and leaves the others alone, unknown fields are refused on reading and writing, and the keys, values, items, length and membership of a row always agree.",
 IH, "every field list, default dictionary, initial value and sequence of writes",
 "A row is a small state machine over arbitrary field lists; tests touch a few fields.",
 [U], [("row class", U + " td_row_factory")])
prop("C08", "Tables keep one row per well-formed primary key and notice duplicates",
 "However a table is filled (dictionary, list of rows, list of dictionaries, DataFrame, assignment of a row), each row is stored under the primary key built from its key fields in schema order, with its data fields in schema order, and keys of the wrong length or unexpected tables are refused. If rows collapse onto one key during construction, this is an assertion failure, a warning or silently accepted according to the factory's duplicates setting, and the warning or assertion never fires without a duplicate.",
 IC, "every schema, initial table content in each accepted form, and duplicates setting",
 "Forms of input times key arity times duplicates are sampled only thinly by tests.",
 [T], [("construction", T + " TicDatFactory.__init__ / TicDat.__init__"), ("keyed table class", T + " ticdattablefactory"), ("input checks", T + " good_tic_dat_table and helpers")])
prop("C09", "Frozen data cannot be changed",
 "After a data object is frozen, no operation on it, its tables, its rows or its linked tables (tables kept as raw DataFrames aside) can change any of them: every attempt to set, delete, pop, clear, update or insert an entry or attribute raises and leaves the content as it was. Looking up a missing key in a frozen table raises instead of inserting a row. Frozen dictionaries used by the schema are immutable in the same way, and freezing a structure preserves its content.",
 IH, "every data object and every sequence of mutating operations offered by dict, list and object",
 "Tests try a few operations; immutability is about all operations in all orders.",
 [U, T], [("guards on attributes and entries", U + " freezable_factory, FreezeableDict, FrozenDict, td_row_factory"), ("freezing everything", T + " _TicDat._freeze"), ("deep freezing", U + " deep_freeze")])
prop("C10", "A full schema description rebuilds an equivalent factory",
 "Building a factory (of either kind) from the full schema description of another reproduces its tables, fields, data types, default values, foreign keys, parameters and I/O flags, also after the description went through JSON-friendly copies, and describing the result again gives an equal description. The short schema lists exactly the tables with their primary key and data fields in declared order.",
 ["configurations", "histories"], "every factory reachable by declaring tables and then calling the schema editing methods in any order",
 "The round trip is over all schema states, tests try some.",
 [T, N], [("description", T + " schema"), ("rebuild", T + " create_from_full_schema, clone"), ("same for DataFrames", N + " schema, create_from_full_schema, clone")])
prop("C11", "Schema clones keep everything but what was asked to change",
 "Restricting a schema to some tables, or cloning it while adding a table, adding or removing a column, keeps every field list, default, data type, tooltip, foreign key and parameter that does not mention what was removed, drops everything that does, and puts a new column at the requested position. The original factory is left unchanged, and impossible requests (unknown or already present names, positions out of range) are refused.",
 IC, "every schema and every requested edit",
 "Edits interact with each ancillary dictionary; tests check a few combinations.",
 [U, T, N], [("restricting a description", U + " clone_a_anchillary_info_schema"), ("edits", U + " clone_add_a_column, clone_remove_a_column, clone_add_a_table, clone_rename_a_column")])
prop("C12", "The infinity flag makes infinities survive storage",
 "With a numeric flag, writing replaces numbers beyond plus or minus the flag by the flag of the same sign and leaves all other cells alone, and reading turns numbers at or beyond the flag back into the infinity of that sign; so writing then reading preserves every cell whose magnitude is below the flag or infinite. With a null flag, null and infinity are exchanged only for fields that allow numbers, forbid null and allow one infinity, and a field allowing both infinities is refused. Without a flag cells pass unchanged, and a parameters table with declared parameters is never adjusted by the flag.",
 IC, "every flag setting, data type and cell value",
 "The product of flag, type and value classes is far larger than the tested pairs.",
 [T, N], [("write side", T + " _infinity_flag_write_cell"), ("read side", T + " _general_read_cell"), ("sign of a null", T + " _none_as_infinity_bias"), ("DataFrames", N + " _pre_write_adjustment, _general_post_read_adjustment")])
prop("C13", "Text written into SQL statements reads back unchanged",
 "A value rendered into a SQL text statement denotes exactly that value when the statement is executed: strings come back equal and cannot end the literal early wherever their quotes are, as long as no two quotes stand side by side, numbers keep their value, nulls become NULL. So a data object of such values, semicolons aside, written as a SQL text file and executed yields the same rows.",
 INP, "every string, number, boolean, null and date as a cell",
 "Strings are unbounded and the defects sit in quote positions tests do not try.",
 ["ticdat/sqlitetd.py"], [("string literal", "ticdat/sqlitetd.py _fix_str"), ("statement rendering", "ticdat/sqlitetd.py _insert_format, _get_data, write_sql_file")])
prop("C14", "Database tables are created and filled with parents before children",
 "The order in which tables are created and filled lists every requested table exactly once and puts each parent table before the children that reference it whenever the foreign keys are not circular, and computing it always terminates, also for circular and self-referencing keys.",
 ["configurations"], "every set of tables and foreign key graph",
 "The order is a graph property over all graphs.",
 ["ticdat/sqlitetd.py", "ticdat/pgtd.py"], [("ordering for SQLite", "ticdat/sqlitetd.py _ordered_tables"), ("ordering for PostgreSQL", "ticdat/pgtd.py _ordered_tables")])
prop("C15", "Duplicate reports list exactly the repeated keys with their counts",
 "A duplicate report lists, for each table with a primary key, exactly the key values that occur in more than one row with the number of rows having that key, and omits tables and keys without duplicates. For DataFrames, the rows reported are exactly the repeated rows the keep option asks for.",
 IC, "every schema and multiset of rows",
 "Multisets and key arity are unbounded; tests use one or two duplicate patterns.",
 [U, N, "ticdat/csvtd.py", "ticdat/xls.py"], [("counting", U + " find_duplicates, find_duplicates_from_dict_ticdat"), ("csv and Excel", "ticdat/csvtd.py find_duplicates; ticdat/xls.py find_duplicates"), ("DataFrames", N + " find_duplicates")])
prop("C16", "Obfuscation is an invertible renaming of the data",
 "The obfuscated copy is the original data with each renamed entity key replaced consistently in the entity table and in every field that references it, directly or through chains of foreign keys; all other values are unchanged. Distinct entities get distinct names made of capital letters followed by a number, and the returned renaming maps every new name back to its table and original key, so applying it restores the original.",
 IC, "every schema and data object without foreign key failures, every choice of prefixes and skipped tables",
 "Consistency across all references and uniqueness of generated names depend on the whole schema and data.",
 [T, U], [("renaming", T + " obfusimplify"), ("name generation", U + " baseConverter"), ("chains of keys", T + " add_implied_foreign_keys")])
prop("C17", "A multi-index slice equals filtering the index list",
 "Slicing an index collection by a pattern of fixed values and wildcards returns exactly the tuples that agree with the pattern in every fixed position, in the original order and with their multiplicity, however often and in whatever order slices are taken or the cache is cleared, and whether or not the accelerated implementation is in use. Ragged collections, wildcards inside the data and patterns of the wrong length are refused.",
 IH, "every index collection, pattern and history of slice and clear calls",
 "The cache makes the result history dependent; tests take few slices.",
 [U], [("slicing with its cache", U + " Slicer.slice, Slicer.clear"), ("construction", U + " Slicer.__init__")])
prop("C18", "Model text formatting substitutes only doubled braces",
 "Formatting model text replaces each doubled-brace label by its value and leaves every other character, including single braces, unchanged.",
 INP, "every text and every set of substitutions",
 "Text is unbounded; brace patterns in tests are few.",
 [U], [("formatting", U + " ampl_format")])
prop("C19", "A factory's schema cannot change once it has been used",
 "After a factory has produced or read a data object, every call that would set or clear its tables' types, defaults, foreign keys, predicates or generator tables, or add a parameter, is refused and leaves the schema as it was; before that, ill-formed requests (unknown table or field) are refused without effect.",
 ["histories", "configurations"], "every sequence of schema editing calls, before and after first use",
 "Guards must be present in each of some dozen methods in both factories; tests check one or two.",
 [T, N], [("the lock", T + " _trigger_has_been_used"), ("guards", T + " set_data_type, set_default_value, add_foreign_key, add_parameter, add_data_row_predicate and others"), ("same for DataFrames", N + " the same methods")])
prop("C20", "Tables are matched to files by name, ignoring case and spaces, never ambiguously",
 "When reading, a table is matched to the file, sheet, JSON key or database table whose name equals it after ignoring case and treating spaces as underscores; if two candidates match one table the read is refused, and if none matches an optional table comes back empty. The pretty name given to a table on writing always matches that table again on reading, and candidate spellings for a database table are exactly the replacements of some of its underscores by spaces.",
 IC, "every table name and every set of candidate names",
 "Names are unbounded; underscores at ends and doubled are where the rule breaks.",
 [U, "ticdat/csvtd.py", "ticdat/jsontd.py", "ticdat/xls.py", "ticdat/sqlitetd.py", "ticdat/pandatio.py"], [("pretty names", U + " case_space_to_pretty"), ("spellings", U + " all_underscore_replacements"), ("matching", "ticdat/csvtd.py _get_file_path; ticdat/jsontd.py _create_tic_dat_dict; ticdat/sqlitetd.py _get_table_names")])
prop("C21", "Writers never overwrite or discard existing data unless allowed",
 "Writing with overwriting disallowed to a place that already holds a file (or, for databases, rows) that the write would replace raises an error and leaves the existing content as it was.",
 IC, "every writer, schema, naming option and pre-existing set of files",
 "The guard has to look at the same names the writer writes; tests use the plain names.",
 ["ticdat/csvtd.py", "ticdat/jsontd.py", "ticdat/xls.py", "ticdat/sqlitetd.py"], [("guards", "ticdat/csvtd.py write_directory; ticdat/jsontd.py write_file; ticdat/xls.py write_file; ticdat/sqlitetd.py write_db_data, write_sql_file")])
prop("C22", "Copies equal the original and share nothing mutable with it",
 "A copy of a data object (row tables or DataFrames), and a deep copy of nested schema structures, equals the original, and changing either one afterwards never changes the other. Converting row tables to DataFrames and back gives an equal object, and the conversion leaves its input unchanged.",
 IH, "every schema, data object and later mutation of either side",
 "Aliasing shows only under later mutation of the right object.",
 [T, N, U], [("copies", T + " copy_tic_dat, copy_to_pandas; " + N + " copy_pan_dat, copy_to_tic_dat"), ("deep copy", U + " deep_copy, deep_freeze")])
prop("C23", "Parameter tables are completed with defaults and typed on reading",
 "The full parameters dictionary has every declared parameter: its table value if present, else its default (dates read as dates), plus any other table entries unchanged. After reading a parameters table stored as strings, each value whose text reads as a number becomes that number (integral values as integers) unless its declared type refuses numbers, text of date parameters becomes a date where it reads as one, empty text becomes null where only null is valid, and all other entries, including their names, are unchanged.",
 IC, "every set of declared parameters and parameters table",
 "Type settings times stored text is a product space.",
 [T, N], [("completion", T + " create_full_parameters_dict"), ("typing after read", T + " _parameter_table_post_read_adjustment"), ("declaration", T + " add_parameter")])
prop("C24", "DataFrame integrity checks agree with the row table checks",
 "For DataFrame data, the type, foreign key, row predicate and duplicate checks report exactly the rows that violate the declared rule, with the same meaning as the row table checks; type repair and foreign key removal change exactly the reported rows or cells. None of the checks alters the data it is given.",
 IC, "every schema and set of DataFrames, any index",
 "Frames bring index, dtype and null variations that tests sample thinly.",
 [N], [("type check", N + " find_data_type_failures, _true_data_types"), ("foreign keys", N + " _find_foreign_key_failure_rows"), ("row predicates", N + " find_data_row_failures"), ("row-wise application", U + " faster_df_apply")])
prop("C25", "Trailing empty spreadsheet rows are dropped and nothing else",
 "Pruning removes exactly the longest run of entirely empty rows at the end of a table and keeps every other row, including empty rows in the middle.",
 INP, "every table length and pattern of empty rows",
 "It is found by search over positions; boundaries matter for each length.",
 [N, "ticdat/xls.py"], [("search", N + " _find_number_all_nan_last_rows, remove_trailing_all_nan"), ("Excel rows", "ticdat/xls.py _OpenPyxlSheetWrapper")])
prop("C26", "Cell readers convert stored text by declared type only",
 "Reading a cell from csv, Excel or SQLite gives the stored value converted only as the field's data type and default call for: empty text becomes null where null is allowed and otherwise stays; csv text that reads as a number becomes that number where numbers are allowed, as does text of fields allowing both numbers and strings unless that is switched off (integers keep their exact value); SQLite true/false text becomes a boolean; text that reads as a date becomes that date for date fields; infinity text of Excel and SQLite becomes that infinity when no flag is set; any other value is unchanged.",
 IC, "every data type, default value and stored cell",
 "Text forms times type settings is unbounded.",
 ["ticdat/csvtd.py", "ticdat/sqlitetd.py", "ticdat/xls.py"], [("csv", "ticdat/csvtd.py _read_cell"), ("SQLite", "ticdat/sqlitetd.py _read_data_cell, _write_data_cell"), ("Excel", "ticdat/xls.py _sub_tuple")])
prop("C27", "Relative comparisons and progress bounds behave as stated",
 "The relative difference of two numbers is symmetric, zero exactly for equal numbers up to the tiny-value cut-off, never negative, and unchanged by negating both; two numbers are nearly the same exactly when it is below the tolerance. Progress reports accept a lower bound not above the upper bound by more than the allowed relative slack and refuse others.",
 INP, "every pair of numbers including zero, negatives and infinities",
 "Real-valued input space; signs and magnitudes interact.",
 [U], [("difference", U + " per_error, nearly_same"), ("progress", U + " Progress.mip_progress, numerical_progress")])
prop("C28", "Foreign keys are declared, classified and chained consistently",
 "Declaring a foreign key is refused unless both tables and all mapped fields exist, and declaring the same key again changes nothing; a declared key's cardinality is 'one' on a side exactly when the mapped fields there cover that table's primary key. Adding implied keys yields the chains obtained by following declared keys through shared fields and nothing else, and detection of circular keys is exact.",
 ["configurations"], "every schema and sequence of foreign key declarations",
 "Chains and cycles are graph properties.",
 [T, U, N], [("declaration", T + " add_foreign_key"), ("cardinality", T + " foreign_keys"), ("chains", T + " add_implied_foreign_keys"), ("cycles", U + " does_new_fk_complete_circle")])
prop("C29", "Data written to a file reads back the same",
 "A data object with storable values, written by any of the file writers (csv directory, JSON, Excel, SQLite database or SQL text, verbose or pretty-named) and read by the same schema, comes back with the same tables, keys and cell values, except for conversions the format itself forces.",
 IC, "every schema and data object of storable values, for each format",
 "Values, table shapes and options multiply beyond the tested files.",
 ["ticdat/csvtd.py", "ticdat/jsontd.py", "ticdat/xls.py", "ticdat/sqlitetd.py", "ticdat/pandatio.py"], [("csv", "ticdat/csvtd.py"), ("JSON", "ticdat/jsontd.py make_json_dict, _create_tic_dat_dict"), ("Excel", "ticdat/xls.py"), ("SQLite", "ticdat/sqlitetd.py _get_data, _create_tic_dat_from_con"), ("DataFrames", "ticdat/pandatio.py")])
prop("C30", "Linked tables give each parent row exactly its children",
 "With links enabled, each parent row's attribute for a child table holds exactly the child rows that reference it, keyed by the remaining primary key fields of the child (or the single child row for one-to-one keys), and the linked rows are the very rows of the child table. Rows without children get an empty link (none for one-to-one keys) and orphans appear nowhere.",
 IC, "every schema with simple foreign keys and every data object",
 "The key projection depends on field order and key overlap.",
 [T], [("linking", T + " TicDat._try_make_foreign_links")])
prop("C31", "Data exchanged with a PostgreSQL server keeps its content",
 "Data written to a PostgreSQL schema and read back by the same factory has the same tables, keys and cell values.",
 IC, "every schema and data object, against a live server",
 "Tests need a live server and sample values.",
 ["ticdat/pgtd.py"], [("I/O", "ticdat/pgtd.py write_data, create_tic_dat")])
