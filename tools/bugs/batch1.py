B = lambda **k: k
BUGS = [
B(id="C01-huge-int", property="C01", edits=[("utils.py", "(safe_apply(int)(data) != data)", "(not float(data).is_integer())")],
  demo='''
from ticdat import TicDatFactory
t = TicDatFactory(a=[["k"], ["f"]])
t.set_data_type("a", "f", must_be_int=True)
assert t.data_types["a"]["f"].valid_data(10 ** 400)
assert not t.data_types["a"]["f"].valid_data(1.5)
''', needs="an integer too large for a float in a field whose type requires integers", breaks="valid_data raises OverflowError instead of accepting the integer"),
B(id="C02-partial-key-types", property="C02", edits=[("ticdatfactory.py", "                if pk not in self._data_types.get(t, ()):", "                if not set(pks).intersection(self._data_types.get(t, ())):")],
  demo='''
from ticdat import TicDatFactory
t = TicDatFactory(a=[["k", "l"], ["f"]])
t.set_data_type("a", "k")
d = t.TicDat(a={(1, None): 3, (2, 5): 4})
assert set(t.find_data_type_failures(d)) == {("a", "l")}
''', needs="a compound primary key of which only some fields have a declared type, and a null in another one", breaks="null cells of untyped primary key fields go unreported as soon as another key field of the table has a type"),
B(id="C03-falsy-replacement", property="C03", edits=[("ticdatfactory.py", """replacement_values.get((table, field),
                        self._default_values.get(table, {}).get(field, 0))""", """replacement_values.get((table, field)) or \\
                        self._default_values.get(table, {}).get(field, 0)""")],
  demo='''
from ticdat import TicDatFactory
t = TicDatFactory(a=[["k"], ["f"]])
t.set_default_value("a", "f", 7); t.set_data_type("a", "f", nullable=False)
d = t.TicDat(a={1: -5, 2: 4})
t.replace_data_type_failures(d, {("a", "f"): 0})
assert d.a[1]["f"] == 0
''', needs="a supplied replacement that is falsy (0, empty string, None) while the default value differs", breaks="the default value is used although a replacement was supplied"),
B(id="C04-shared-lookup", property="C04", edits=[("ticdatfactory.py", """            if (tblname, fields) not in table_data:
                add_here = table_data[tblname, fields]""", """            if fields not in table_data:
                add_here = table_data[fields]"""), ("ticdatfactory.py", "            return table_data[tblname, fields]", "            return table_data[fields]")],
  demo='''
from ticdat import TicDatFactory
t = TicDatFactory(p=[["k"], ["x"]], q=[["k"], ["x"]], c=[["k"], ["a", "b"]])
t.add_foreign_key("c", "p", ["a", "x"]); t.add_foreign_key("c", "q", ["b", "x"])
d = t.TicDat(p={1: 10}, q={1: 20}, c={1: [10, 20], 2: [20, 10]})
r = {k.foreign_table: set(v.native_pks) for k, v in t.find_foreign_key_failures(d).items()}
assert r == {"p": {2}, "q": {2}}, r
''', needs="two foreign keys onto equally named non-key fields of two different parent tables", breaks="the parent rows of one table are used to look up references to the other"),
B(id="C05-pop-order", property="C05", edits=[("ticdatfactory.py", "sorted(needs_removal, reverse=True)", "sorted(needs_removal, key=str, reverse=True)")],
  demo='''
from ticdat import TicDatFactory
t = TicDatFactory(p=[["k"], []], c=[[], ["a"]])
t.add_foreign_key("c", "p", ["a", "k"])
d = t.TicDat(p=[[1]], c=[[1]] * 9 + [[2], [3], [1], [1]])
d.c[11]["a"] = 1
for i, r in enumerate(d.c): pass
t.remove_foreign_key_failures(d)
assert [r["a"] for r in d.c] == [1] * 11, list(d.c)
''', needs="a keyless table with orphans at row positions whose decimal texts sort differently from the numbers (9 and 10)", breaks="the wrong rows are removed"),
B(id="C06-message-one", property="C06", edits=[("ticdatfactory.py", "if not _ is True:", "if _ != True:")],
  demo='''
from ticdat import TicDatFactory
t = TicDatFactory(a=[["k"], ["f"]])
t.add_data_row_predicate("a", lambda row: row["f"], "p", predicate_failure_response="Error Message")
d = t.TicDat(a={1: 1, 2: True, 3: 1.0})
r, = t.find_data_row_failures(d).values()
assert {x.primary_key for x in r} == {1, 3}
''', needs="a message predicate that returns 1 or 1.0", breaks="rows whose message is a number equal to one are not reported"),
B(id="C07-position-read", property="C07", edits=[("utils.py", "return self._data[fieldtoindex[item]]", "return self._data[fieldtoindex.get(item, item)]")],
  demo='''
from ticdat import TicDatFactory
t = TicDatFactory(a=[["k"], ["f", "g"]])
d = t.TicDat(a={1: [5, 6]})
try: d.a[1][0]
except Exception: pass
else: raise SystemExit("unknown field 0 was read")
''', needs="reading a row with an integer instead of a field name", breaks="unknown fields that are valid positions are no longer refused on reading"),
B(id="C08-long-key", property="C08", edits=[("ticdatfactory.py", "(keylen == 1 or keylen == len(key)),", "(keylen == 1 or keylen <= len(key)),")],
  demo='''
from ticdat import TicDatFactory
t = TicDatFactory(a=[["k", "l"], ["f"]])
d = t.TicDat(a={(1, 2): 5})
try: d.a[1, 2, 3] = {"f": 1}
except Exception: pass
else: raise SystemExit("key of the wrong length accepted")
''', needs="assigning a row under a compound key with too many entries", breaks="keys longer than the primary key are accepted"),
B(id="C09-update-kwargs", property="C09", edits=[("utils.py", """    def update(self, *args, **kwargs) :
        if not getattr(self, "_dataFrozen", False) :""", """    def update(self, *args, **kwargs) :
        if not (args and getattr(self, "_dataFrozen", False)) :""")],
  demo='''
from ticdat import TicDatFactory
t = TicDatFactory(a=[["k"], ["f"]])
d = t.freeze_me(t.TicDat(a={"x": 5}))
try: d.a.update(y={"f": 1})
except Exception: pass
assert set(d.a) == {"x"}
''', needs="update called with keyword arguments on a frozen table", breaks="a frozen table takes new rows"),
B(id="C12-int-clip", property="C12", edits=[("ticdatfactory.py", """        if utils.numericish(self.infinity_io_flag) and utils.numericish(x):
            return max(""", """        if utils.numericish(self.infinity_io_flag) and isinstance(x, float):
            return max(""")],
  demo='''
from ticdat import TicDatFactory
t = TicDatFactory(a=[["k"], ["f"]])
t.set_infinity_io_flag(999)
assert t._infinity_flag_write_cell("a", "f", 5000) == 999
assert t._infinity_flag_write_cell("a", "f", -5000) == -999
''', needs="an integer beyond the numeric infinity flag", breaks="integers beyond the flag are written as they are"),
B(id="C16-one-to-one", property="C16", edits=[("ticdatfactory.py", """if any(ft.cardinality == "one-to-one" for ft in foreign_keys_by_native[nt]):""", """if all(ft.cardinality == "one-to-one" for ft in foreign_keys_by_native[nt]):""")],
  demo='''
from ticdat import TicDatFactory
t = TicDatFactory(p=[["k"], []], z=[["k"], []], q=[["k"], ["zf"]])
t.add_foreign_key("q", "p", ["k", "k"]); t.add_foreign_key("q", "z", ["zf", "k"])
d = t.TicDat(p=[["b"], ["a"]], z=[["u"]], q={"b": "u"})
r = t.obfusimplify(d)
new, = r.copy.q
assert len([k for k in r.renamings]) == 3, r.renamings
assert r.renamings[new] == ("p", "b")
''', needs="a table that is one-to-one with a parent and also references another table", breaks="the table is renamed as an entity of its own, so the renaming lists names for keys that are references"),
B(id="C17-aliased-result", property="C17", edits=[("utils.py", "return list(self._archived_slicings[wildcards][fa(args)])", "return self._archived_slicings[wildcards][fa(args)]")],
  demo='''
from ticdat.utils import Slicer
s = Slicer([((1, 1), 2), ((1, 1), 3), (2, 2)])
s.slice((1, 1), "*").append("junk")
assert s.slice((1, 1), "*") == [((1, 1), 2), ((1, 1), 3)]
''', needs="the caller changes the list a slice returned and slices again with the same pattern", breaks="later slices return the changed list"),
B(id="C19-generator-type", property="C19", edits=[("ticdatfactory.py", """            return
        verify(not self._has_been_used,
               "The data types can't be changed after a TicDatFactory has been used.")
        del(""", """            return
        verify(table in self.generator_tables or not self._has_been_used,
               "The data types can't be changed after a TicDatFactory has been used.")
        del(""")],
  demo='''
from ticdat import TicDatFactory
t = TicDatFactory(a=[[], ["f"]])
t.set_data_type("a", "f"); t.set_generator_tables(["a"])
t.TicDat(a=[[1]])
try: t.clear_data_type("a", "f")
except Exception: pass
assert "f" in t.data_types["a"]
''', needs="clearing the data type of a generator table after the factory was used", breaks="the type is cleared although the factory has been used"),
B(id="C27-tiny", property="C27", edits=[("utils.py", "if max(abs1, abs2) > SMALL_NOT_ZERO:", "if min(abs1, abs2) > SMALL_NOT_ZERO or max(abs1, abs2) > EPSILON:")],
  demo='''
from ticdat.utils import per_error
assert per_error(1e-7, 0) == 1
''', needs="a number between the tiny-value cut-off and 1e-5 compared with one below the cut-off", breaks="different numbers have relative difference zero"),
B(id="C28-long-circle", property="C28", edits=[("utils.py", "        elif t not in already_seen:", "        elif t not in already_seen and len(already_seen) < 2:")],
  demo='''
from ticdat import TicDatFactory
import io, contextlib
t = TicDatFactory(a=[["k"], ["f"]], b=[["k"], ["f"]], c=[["k"], ["f"]], d=[["k"], ["f"]])
for x, y in ("ab", "bc", "cd"): t.add_foreign_key(x, y, ["f", "k"])
o = io.StringIO()
with contextlib.redirect_stdout(o): t.add_foreign_key("d", "a", ["f", "k"])
assert "circular" in o.getvalue()
''', needs="foreign keys that form a circle of four or more tables", breaks="long circles go unnoticed"),
B(id="C30-mapping-order", property="C30", edits=[("ticdatfactory.py", "lookup = tuple(keyrow[local_posn[x]] for x in foreign_pk)", "lookup = tuple(keyrow[local_posn[x]] for x in reversemapping)")],
  demo='''
from ticdat import TicDatFactory
t = TicDatFactory(p=[["k", "l"], ["v"]], c=[["i"], ["a", "b"]])
t.add_foreign_key("c", "p", [["b", "l"], ["a", "k"]])
t.enable_foreign_key_links()
d = t.TicDat(p={(1, 2): 0}, c={7: [1, 2]})
assert set(d.p[1, 2].c) == {7}
''', needs="links over a compound foreign key whose pairs are listed in another order than the parent's primary key", breaks="parents are looked up with the key fields in the wrong order"),
]
