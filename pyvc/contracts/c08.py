from contracts.c09 import *
from contracts.c09 import CONTRACTS as _C
CONTRACTS = []


def same_but(c, ref, HAS, VAL, k):
    x = z3.Const("any_key", U)
    return lambda st: Implies(x != k, And(st.heap[ref.cid].attrs["%map"].dom(x) == HAS(x), Implies(HAS(x), to_u(st.heap[ref.cid].attrs["%map"].get(x)) == VAL(x))))


def key_ok(c, k):
    """a well-formed key: a scalar for a one-field key, a tuple of as many values as there are key fields otherwise"""
    n = c.fa.NPK(c.t)
    return If(n == 1, Not(U.is_tup(k)), And(U.is_tup(k), TLEN(k) == n))


def assign_row(c):
    """table[k] = v for every key and row value"""
    ref, HAS, VAL = keyed_table(c, False)
    k, v = z3.Const("key", U), z3.Const("value", U)
    plain_obj(c, k); plain_obj(c, v)
    c.allow_raise("TicDatError", lambda st: And(Not(key_ok(c, k)), untouched_map(c, ref, HAS, VAL)(st)))
    c.call(BoundFn(ref, c.eng.find_method(c.content(ref).cls, "__setitem__")), [Sym(k), Sym(v)])
    m = c.content(ref).attrs["%map"]
    c.ensure("only keys of the right length", key_ok(c, k))
    c.ensure("the row made of the value is stored under the key", And(m.dom(k), to_u(m.get(k)) == c.ROW(v)))
    c.ensure("no other entry changes", same_but(c, ref, HAS, VAL, k)(c.st))


def untouched_map(c, ref, HAS, VAL):
    x = z3.Const("any_key", U)
    return lambda st: And(st.heap[ref.cid].attrs["%map"].dom(x) == HAS(x), Implies(HAS(x), to_u(st.heap[ref.cid].attrs["%map"].get(x)) == VAL(x)))


def look_up(c):
    """table[k]: the stored row, or a new default row for a well-formed new key"""
    ref, HAS, VAL = keyed_table(c, False)
    k = z3.Const("key", U)
    plain_obj(c, k)
    c.allow_raise("TicDatError", lambda st: And(Not(HAS(k)), Not(key_ok(c, k)), untouched_map(c, ref, HAS, VAL)(st)))
    r = c.call(BoundFn(ref, c.eng.find_method(c.content(ref).cls, "__getitem__")), [Sym(k)])
    m = c.content(ref).attrs["%map"]
    c.ensure("the stored row", And(to_u(r) == VAL(k), m.dom(k), to_u(m.get(k)) == VAL(k)), hyps=[HAS(k)])
    c.ensure("a new row for a well-formed key only", key_ok(c, k), hyps=[Not(HAS(k))])
    c.ensure("the new row is stored", And(m.dom(k), to_u(m.get(k)) == to_u(r)), hyps=[Not(HAS(k))])
    c.ensure("no other entry changes", same_but(c, ref, HAS, VAL, k)(c.st))


CONTRACTS += [Contract("C08.table.assign_row", "ticdatfactory.TicDatFactory.__init__", assign_row), Contract("C08.table.look_up", "ticdatfactory.TicDatFactory.__init__", look_up)]
