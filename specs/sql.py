"""C18: SQL back ends."""
from pyvc.theory import spec, uninterpreted, lemma
from pyvc.contract import contract, iface
from .core import *

CLASSES = []


@uninterpreted
def new_cursor(connection: V) -> V:
    """a cursor of the connection"""


@uninterpreted
def answer(cursor: V) -> L:
    """the rows that answer the statement executed last"""


iface("*", "cursor", dict(self="V", cursor_factory="V", row_factory="V"), optional=["cursor_factory", "row_factory"], result="new_cursor(self)", ret="V", trace="[('cursor', self)]", assumed="connection.cursor gives a cursor and changes nothing else")
iface("*", "execute", dict(self="V", statement="S", parameters="L"), ret="N", trace="[('execute', self, statement, parameters)]",
      assumed="cursor.execute does not change the lists it is given")
iface("*", "fetchall", dict(self="V"), result="answer(self)", ret="L", trace="[('fetchall', self)]", assumed="cursor.fetchall returns the rows of the statement that was executed last (tuples or lists)")


@spec
def where(columns: L, values: L, mark: S, acc: S) -> S:
    """one condition for each value that is not None, in column order"""
    if len(columns) == 0 or len(values) == 0:
        return acc
    if values[0] is None:
        return where(columns[1:], values[1:], mark, acc)
    return where(columns[1:], values[1:], mark, acc + " AND " + asS(columns[0]) + mark)


@spec
def parameters(columns: L, values: L) -> L:
    if len(columns) == 0 or len(values) == 0:
        return []
    if values[0] is None:
        return parameters(columns[1:], values[1:])
    return cons(values[0], parameters(columns[1:], values[1:]))


@spec
def all_str(l: L) -> B:
    if len(l) == 0:
        return True
    return isinstance(l[0], str) and all_str(l[1:])


@spec
def row_lists(rows: L) -> L:
    if len(rows) == 0:
        return []
    return cons(list(rows[0]), row_lists(rows[1:]))


@spec
def all_seq(l: L) -> B:
    if len(l) == 0:
        return True
    return (isinstance(l[0], list) or isinstance(l[0], tuple)) and all_seq(l[1:])


SF = dict(self_fields=dict(connection="V"))
CUR = "new_cursor(self.connection)"
for cls, mark in (("Sqlite3DataSource", "=?"), ("MySqlDataSource", "=%s"), ("PsycoPg2DataSource", "=%s"), ("PsycoPg3DataSource", "=%s")):
    W = f"where(columns, values, '{mark}', 'TRUE')"
    contract(f"richard/data_source/{cls}.py", cls + ".select", dict(table="S", columns="L", values="L"), ret="L",
             when=f"all_str(columns) and all_seq(answer({CUR}))",
             result=f"row_lists(answer({CUR}))",
             trace=f"[('cursor', self.connection), ('execute', {CUR}, 'SELECT ' + joinS(',', columns) + ' FROM ' + table + ' WHERE ' + {W}, parameters(columns, values)), ('fetchall', {CUR})]",
             inv=["all_seq(REST)", f"{W} == where(REST, RESTb, '{mark}', STR)", "parameters(columns, values) == ACC + parameters(REST, RESTb)", "all_str(REST)",
                  f"row_lists(answer({CUR})) == ACC + row_lists(REST)"], **SF)


@spec
def marks(values: L) -> L:
    if len(values) == 0:
        return []
    return cons('?', marks(values[1:]))


@spec
def conditions(columns: L) -> L:
    if len(columns) == 0:
        return []
    return cons(asS(columns[0]) + ' = ? ', conditions(columns[1:]))


S3 = "richard/data_source/Sqlite3DataSource.py"
contract(S3, "Sqlite3DataSource.insert", dict(table="S", columns="L", values="L"), when="all_str(columns)",
         trace=f"[('cursor', self.connection), ('execute', {CUR}, 'INSERT OR IGNORE INTO ' + table + ' (' + joinS(',', columns) + ') VALUES (' + joinS(', ', marks(values)) + ')', values)]",
         inv=["marks(values) == ACC + marks(REST)"], **SF)
contract(S3, "Sqlite3DataSource.delete", dict(table="S", columns="L", values="L"), when="all_str(columns)",
         trace=f"[('cursor', self.connection), ('execute', {CUR}, 'DELETE FROM ' + table + ' WHERE ' + joinS('AND ', conditions(columns)), values)]",
         inv=["conditions(columns) == ACC + conditions(REST)", "all_str(REST)"], **SF)


# ---------------------------------------------------------------- users of a data source
@uninterpreted
def selected(ds: V, table: V, columns: L, values: L) -> L:
    """the rows a data source gives"""


for cls in ("SomeDataSource", "Sqlite3DataSource"):
    iface(cls, "select", dict(self="V", table="V", columns="L", values="L"), result="selected(ident(self), table, columns, values)", ret="L", trace="[('select', ident(self), table, columns, values)]",
          assumed="a data source's select gives rows (lists or tuples; proved above for the SQL back ends)", ensures=["all_seq(result)", "full(result)"])
iface("Sqlite3DataSource", "insert", dict(self="V", table="V", columns="L", values="L"), ret="N", trace="[('insert', self, table, columns, values)]",
      assumed="a data source's insert changes only its tables (proved above for sqlite)")


@spec
def full(rows: L) -> B:
    """no row is empty"""
    if len(rows) == 0:
        return True
    return len(list(rows[0])) > 0 and full(rows[1:])


@spec
def first_column(rows: L) -> L:
    if len(rows) == 0:
        return []
    return cons(rows[0][0], first_column(rows[1:]))


CLASSES += ["ExecutionContext", "Relation"]
contract("richard/interface/SomeDataSource.py", "SomeDataSource.select_column", dict(table="S", columns="L", values="L"), ret="L", no_raise="True",
         result="first_column(selected(ident(self), table, columns, values))", trace="[('select', ident(self), table, columns, values)]",
         inv=["first_column(selected(ident(self), table, columns, values)) == ACC + first_column(REST)", "all_seq(REST)", "full(REST)"])
MM = "richard/module/SimpleMemoryModule.py"
RC = ["isinstance(context, ExecutionContext)", "isinstance(context.relation, Relation)", "isinstance(context.relation.arguments, list)", "isinstance(self.data_source, Sqlite3DataSource)"]
contract(MM, "SimpleMemoryModule.query", dict(values="L", context="V"), self_fields=dict(data_source="V"), requires=RC, ret="L", no_raise="True",
         result="selected(self.data_source, context.relation.predicate, list(context.relation.arguments), values)",
         trace="[('select', self.data_source, context.relation.predicate, list(context.relation.arguments), values)]")
contract(MM, "SimpleMemoryModule.write", dict(values="L", context="V"), self_fields=dict(data_source="V"), requires=RC, no_raise="True",
         trace="[('insert', self.data_source, context.relation.predicate, list(context.relation.arguments), values)]")
