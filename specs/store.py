"""C17: the in-memory store."""
from pyvc.theory import spec, uninterpreted, lemma
from pyvc.contract import contract, iface
from .core import *

CLASSES = []
F = "richard/data_source/SimpleDataSource.py"
SF = dict(self_fields=dict(store="D"))


@spec
def given(columns: L, values: L, acc: D) -> D:
    """the columns that have a value"""
    if len(columns) == 0 or len(values) == 0:
        return acc
    if values[0] is None:
        return given(columns[1:], values[1:], acc)
    return given(columns[1:], values[1:], put(acc, columns[0], values[0]))


contract(F, "SimpleDataSource.create_dict", dict(columns="L", values="L"), result="given(columns, values, {})", ret="D", no_raise="True",
         inv=["given(columns, values, {}) == given(REST, RESTb, MAP)"], **SF)


@spec
def old_records(store: D, table: V) -> L:
    if haskey(store, table):
        return list(store[table])
    return []


contract(F, "SimpleDataSource.insert", dict(table="V", columns="L", values="L"),
         requires=["implies(haskey(asD(self.store), table), isinstance(asD(self.store)[table], list))"],
         ensures=["asD(self_post.store) == put(asD(self.store), table, old_records(asD(self.store), table) + [given(columns, values, {})])"],
         no_raise="True", effects={"self.store": "*"}, **SF)
contract(F, "SimpleDataSource.clear", {}, ensures=["asD(self_post.store) == {}"], no_raise="True", effects={"self.store": "*"}, **SF)


@spec
def disagrees(record: D, keys: L, wanted: D) -> B:
    if len(keys) == 0:
        return False
    return (haskey(record, keys[0]) and record[keys[0]] != wanted[keys[0]]) or disagrees(record, keys[1:], wanted)


@spec
def cells(record: D, columns: L) -> L:
    if len(columns) == 0:
        return []
    return cons(record.get(columns[0]), cells(record, columns[1:]))


@spec
def chosen(records: L, columns: L, wanted: D) -> L:
    if len(records) == 0:
        return []
    if disagrees(asD(records[0]), list(wanted), wanted):
        return chosen(records[1:], columns, wanted)
    return cons(cells(asD(records[0]), columns), chosen(records[1:], columns, wanted))


@spec
def all_dict(bs: L) -> B:
    if len(bs) == 0:
        return True
    return isinstance(bs[0], dict) and all_dict(bs[1:])


REC = "list(asD(self.store)[table])"
W = "given(columns, list_values, {})"
contract(F, "SimpleDataSource.select", dict(table="V", columns="L", list_values="L"), ret="L",
         requires=[f"implies(haskey(asD(self.store), table), isinstance(asD(self.store)[table], list) and all_dict({REC}))"],
         result=f"ite(haskey(asD(self.store), table), chosen({REC}, columns, {W}), [])", no_raise="True",
         inv=[f"chosen({REC}, columns, {W}) == ACC + chosen(REST, columns, {W})", "all_dict(REST)",
              f"disagrees(asD(ELT1), list({W}), {W}) == (not FLAG or disagrees(asD(ELT1), REST, {W}))",
              "cells(asD(ELT1), columns) == ACC + cells(asD(ELT1), REST)"], **SF)
