B = lambda **k: k
BUGS = [
B(id="C22-nested-tuple", property="C22", edits=[("utils.py", "        return tuple(deep_copy(y) for y in x)", "        return x if not any(map(dictish, x)) else tuple(deep_copy(y) for y in x)")],
  demo='''
from ticdat.utils import deep_copy
x = ([1, 2], 3)
y = deep_copy(x)
x[0].append(4)
assert y == ([1, 2], 3)
''', needs="a tuple holding a list (and no dictionary), changed after copying", breaks="the copy shares the list"),
B(id="C21-falsy-first", property="C21", edits=[("sqlitetd.py", 'not any(True for _ in  con.execute("Select * from [%s]"%t))', 'not any(_[0] for _ in  con.execute("Select * from [%s]"%t))')],
  demo='''
from ticdat import TicDatFactory
import tempfile, os, shutil, sqlite3
d = tempfile.mkdtemp()
try:
    t = TicDatFactory(a=[["k"], ["f"]])
    p = os.path.join(d, "x.db")
    t.sql.write_db_data(t.TicDat(a={0: 5}), p)
    try: t.sql.write_db_data(t.TicDat(a={7: 8}), p)
    except Exception: ok = True
    else: ok = False
    rows = sqlite3.connect(p).execute("select * from a").fetchall()
finally: shutil.rmtree(d)
assert ok and rows == [(0, 5)]
''', needs="a database whose existing rows all begin with zero, an empty string or null", breaks="rows are added to a table that holds data although overwriting is not allowed"),
B(id="C20-second-space", property="C20", edits=[("csvtd.py", 'f.lower().replace(" ", "_") == "%s.csv"%table.lower()]', 'f.lower().replace(" ", "_", 1) == "%s.csv"%table.lower()]')],
  demo='''
from ticdat import TicDatFactory
import tempfile, os, shutil
d = tempfile.mkdtemp()
try:
    t = TicDatFactory(a_b_c=[["k"], ["f"]])
    with open(os.path.join(d, "A b C.csv"), "w") as f: f.write("k,f\\n1,2\\n")
    r = t.csv.create_tic_dat(d)
finally: shutil.rmtree(d)
assert len(r.a_b_c) == 1
''', needs="a table name with two underscores and a file named with spaces in both places", breaks="the file is not found"),
B(id="C15-many-copies", property="C15", edits=[("utils.py", "             rtn[t] = {k:v for k,v in rtn[t].items() if v > 1}\n             if not", "             rtn[t] = {k:v for k,v in rtn[t].items() if v > 1 and k == k}\n             if not")],
  demo='''
from ticdat import TicDatFactory
from ticdat.utils import find_duplicates_from_dict_ticdat
t = TicDatFactory(a=[["k"], ["f"]])
n = float("nan")
r = find_duplicates_from_dict_ticdat(t, {"a": [[n, 1], [n, 2], [3, 1]]})
assert len(r.get("a", {})) == 1 and list(r["a"].values()) == [2], r
''', needs="rows repeated under one nan key", breaks="the repeated key is not reported"),
B(id="C23-none-entry", property="C23", edits=[("utils.py", "    for k,v in d2.items():\n        rtn[k] = v\n    return rtn", "    for k,v in d2.items():\n        if v is not None or k not in rtn:\n            rtn[k] = v\n    return rtn")],
  demo='''
from ticdat import TicDatFactory
t = TicDatFactory(parameters=[["k"], ["v"]])
t.add_parameter("p", 5, nullable=True)
d = t.TicDat(parameters={"p": None})
assert t.create_full_parameters_dict(d) == {"p": None}
''', needs="a declared parameter whose entry in the table is null", breaks="the default value hides the table's null entry"),
B(id="C10-falsy-type", property="C10", edits=[("ticdatfactory.py", "        for p, (dt, df) in (params or {}).items():\n            if dt is None:", "        for p, (dt, df) in (params or {}).items():\n            if dt is None or df is None:")],
  demo='''
from ticdat import TicDatFactory
t = TicDatFactory(parameters=[["k"], ["v"]])
t.add_parameter("p", None, nullable=True)
r = TicDatFactory.create_from_full_schema(t.schema(include_ancillary_info=True))
assert r.schema(include_ancillary_info=True) == t.schema(include_ancillary_info=True)
''', needs="a declared parameter whose type allows nulls and whose default is None", breaks="the rebuilt parameter has no type"),
]
