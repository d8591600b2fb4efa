"""All places of the API which take a value, a name, custom SQL or a subquery.

Each entry is a function of one argument (and of the dialect, for those which
exist only there) which builds a whole query.
"""
from collections import OrderedDict

from .lib import s, rel

U = lambda: s.update('t')
I = lambda: s.insert_into('t')
D = lambda: s.delete_from('t')
F = lambda: s.select_from('t')
J = lambda: s.select_from('t').join('u')

# -- values of all types which conditions take (argument: value)
COND = {
    'where_kwds': lambda v: F().where(a=v),
    'where_pair': lambda v: F().where('a', v),
    'where_dict': lambda v: F().where({'a': v}),
    'where_list': lambda v: F().where([('a', v)]),
    'where_tuples': lambda v: F().where(('a', v), ('b', 2)),
    'where_second': lambda v: F().where(a=1).where(b=v),
    'where_expr_column': lambda v: F().where([(s.count('x'), v)]),
    'having': lambda v: F().having(a=v),
    'q': lambda v: F().where(s.Q(a=v)),
    'q_or': lambda v: F().where(s.Q(b=1) | s.Q(a=v, c=3)),
    'q_and_kwds': lambda v: F().where(s.Q(b=1) | s.Q(c=2), a=v),
    'not': lambda v: F().where(s.Not(a=v)),
    'eq': lambda v: F().where(a=rel.EQ(v)),
    'ne': lambda v: F().where(a=rel.NE(v)),
    'update_where': lambda v: U().set(b=1).where(a=v),
    'delete_where': lambda v: D().where(a=v),
    'exists': lambda v: F().where(s.exists(s.select_from('u').where(a=v))),
    'sub_in': lambda v: F().where(a=rel.IN(s.select('x').from_('u').where(b=v))),
    'sub_from': lambda v: s.select_from((s.select('x').from_('u').where(b=v), 'al')),
    'sub_column': lambda v: s.select((s.select('x').from_('u').where(b=v), 'al')),
    'sub_join': lambda v: F().join((s.select('x').from_('u').where(b=v), 'al')).on('a', 'b'),
    'union_left': lambda v: F().where(a=v) & s.select('z'),
    'union_right': lambda v: s.select('z') | F().where(a=v),
    'on_v': lambda v: J().on('a', s.V(v)),
    'on_rel_v': lambda v: J().on('a', rel.NE(s.V(v))),
    'v_in_where': lambda v: F().where(a=s.V(v)),
    'rel_v': lambda v: F().where(a=rel.GE(s.V(v))),
}
# -- comparable values (no booleans)
ORDERED = {
    'gt': lambda v: F().where(a=rel.GT(v)),
    'ge': lambda v: F().where(a=rel.GE(v)),
    'lt': lambda v: F().where(a=rel.LT(v)),
    'le': lambda v: F().where(a=rel.LE(v)),
    'having_gt': lambda v: F().having([(s.avg('x'), rel.GT(v))]),
}
# -- texts only
TEXT = {
    'like': lambda v: F().where(a=rel.LIKE(v)),
    'not_like': lambda v: F().where(a=rel.NOT_LIKE(v)),
    'regexp': lambda v: F().where(a=rel.REGEXP(v)),
    'separator': lambda v: s.select(s.group_concat('x').separator(v)),
    'separator_order': lambda v: s.select(s.group_concat('x', 'y').order_by(('x', 'desc')).separator(v)),
    'outfile': lambda v: F().into_outfile(v),
    'fields': lambda v: F().into_outfile('f').fields_terminated_by(v),
    'lines': lambda v: F().into_outfile('f').lines_terminated_by(v),
    'enclosed': lambda v: F().into_outfile('f').optionally_enclosed_by(v),
    'outfile_all': lambda v: F().into_outfile('f').fields_terminated_by('g').lines_terminated_by(v).optionally_enclosed_by('h').for_update(),
}
# -- members of collections
MEMBER = {
    'in_list': lambda v: F().where(a=rel.IN([v, 1])),
    'in_args': lambda v: F().where(a=rel.IN(1, v)),
    'in_tuple': lambda v: F().where(a=rel.IN((v,))),
    'in_gen': lambda v: F().where(a=rel.IN(i for i in [1, v])),
    'not_in': lambda v: F().where(a=rel.NOT_IN([2, v])),
    'default_list': lambda v: F().where(a=[v, 3]),
    'default_tuple': lambda v: F().where(a=(4, v)),
    'default_gen': lambda v: F().where(a=(i for i in [v])),
    'in_none': lambda v: F().where(a=rel.IN([v, None])),
    'not_in_none': lambda v: F().where(a=rel.NOT_IN([None, v])),
    'having_in': lambda v: F().having(a=[1, v]),
    'on_list': lambda v: J().on('a', [v, 1]),
    'v_list': lambda v: s.select(s.V([1, v])),
    'v_tuple': lambda v: s.select(s.V((v, 2))),
    'v_gen': lambda v: s.select(s.V(i for i in [v, 2])),
    'v_nested': lambda v: s.select(s.V([[1, v], [3, 4]])),
    'v_frozenset': lambda v: s.select(s.V(frozenset([v]))),
    'update_in': lambda v: U().set(a=1).where(b=[v]),
}
# -- assigned values (also bytes)
ASSIGN = {
    'set_kwds': lambda v: U().set(a=v).where(id=1),
    'set_pair': lambda v: U().set('a', v).where(id=1),
    'set_dict': lambda v: U().set({'a': v, 'b': 1}).where(id=1),
    'set_all': lambda v: U().set(b=5).set([('a', v)]).allow_update_all(),
    'insert': lambda v: I().values(a=v),
    'insert_rows': lambda v: I().values(a=1, b=2).values([('b', v)]).values(a=3),
    'insert_dict': lambda v: I().values({'a': v, 'b': 1}),
    'column_v': lambda v: s.select(s.V(v)),
    'column_v_alias': lambda v: s.select((s.V(v), 'al'), 'b'),
    'order_v': lambda v: F().order_by(s.V(v)),
    'group_v': lambda v: F().group_by((s.V(v), 'desc')),
    'concat_v': lambda v: s.select(s.concat('a', s.V(v), 'b')),
    'group_concat_v': lambda v: s.select(s.group_concat(s.V(v)).separator('-')),
    'max_v': lambda v: s.select(s.max(s.V(v))),
    'count_list_v': lambda v: s.select(s.count(['a', s.V(v)])),
    'convert_v': lambda v: s.select(s.convert(s.V(v), 'char')),
    'set_v': lambda v: U().set(a=s.V(v)).where(id=1),
    'insert_v': lambda v: I().values(a=s.V(v)),
    'v_of_v': lambda v: s.select(s.V(s.V(v))),
}
# -- only on some dialects
UPSERT = {
    'mysql': {'odku': lambda v: I().values(a=1).on_duplicate_key_update(a=v),
              'odku_dict': lambda v: I().values(a=1).on_duplicate_key_update({'b': 2, 'a': v})},
    'postgresql': {'conflict': lambda v: I().values(a=1).on_duplicate_key_update('id', a=v),
                   'conflict_dict': lambda v: I().values(a=1).on_duplicate_key_update('id', {'a': v, 'b': 2})},
    'sqlite': {'replace': lambda v: I().values(a=v).on_duplicate_key_update()},
    'sql': {},
}
# -- names (argument: name; kwds cannot be `self`)
NAME = {
    'column': lambda n: s.select(n),
    'column_second': lambda n: s.select('x', n, 'y'),
    'column_tuple': lambda n: s.select((n, 'al')),
    'column_dict': lambda n: s.select({n: 'al'}),
    'columns_call': lambda n: s.select('x').columns(n),
    'from': lambda n: s.select_from(n),
    'from_second': lambda n: s.select_from('x', n),
    'from_tuple': lambda n: s.select_from((n, 'al')),
    'from_dict': lambda n: s.select_from({n: 'al'}),
    'from_table': lambda n: s.select('x').from_table(n),
    'from_table_alias2': lambda n: s.select('x').from_table(n, 'al'),
    'join': lambda n: F().join(n).on('a', 'b'),
    'left_join': lambda n: F().left_join((n, 'al')).on('a', 'b'),
    'right_join': lambda n: F().right_join({n: 'al'}).on('a', 'b'),
    'inner_join': lambda n: F().inner_join([n, None]).on('a', 'b'),
    'on_left': lambda n: J().on(n, 'b'),
    'on_right': lambda n: J().on('x', n),
    'on_right_rel': lambda n: J().on('x', rel.GT(n)),
    'on_value': lambda n: J().on(n, 5),
    'on_in_none': lambda n: J().on(n, [5, None]),
    'on_dict': lambda n: J().on({n: 'b'}),
    'where': lambda n: F().where(n, 1),
    'where_dict': lambda n: F().where({n: 'b'}),
    'where_list': lambda n: F().where([(n, 'b'), ('zz', 1)]),
    'where_null': lambda n: F().where(n, None),
    'where_in': lambda n: F().where(n, [1, 2]),
    'where_in_none': lambda n: F().where(n, rel.IN([1, None])),
    'where_not_in_none': lambda n: F().where(n, rel.NOT_IN([1, None])),
    'where_in_only_none': lambda n: F().where(n, [None]),
    'where_like': lambda n: F().where(n, rel.LIKE('x')),
    'where_q': lambda n: F().where(s.Q(n, 1) | s.Q(b=2)),
    'where_not': lambda n: F().where(s.Not({n: 1})),
    'where_exists': lambda n: F().where(s.exists(s.select_from('u').where({n: 1}))),
    'where_r': lambda n: F().where(a=s.R(n)),
    'where_rel_r': lambda n: F().where(a=rel.LT(s.R(n))),
    'having': lambda n: F().having(n, 1),
    'group_by': lambda n: F().group_by(n),
    'group_by_desc': lambda n: F().group_by((n, 'desc'), 'b'),
    'order_by': lambda n: F().order_by(n),
    'order_by_desc': lambda n: F().order_by('x', (n, 'DESC')),
    'order_by_dict': lambda n: F().order_by({n: 'desc'}),
    'set': lambda n: U().set(n, 1).where(id=1),
    'set_dict': lambda n: U().set({n: 'x'}).where(id=1),
    'set_r': lambda n: U().set(a=s.R(n)).where(id=1),
    'insert_column': lambda n: I().values({n: 1}),
    'insert_column_rows': lambda n: I().values([(n, 1)]).values([(n, 'x')]),
    'insert_table': lambda n: s.insert_into(n).values(a=1),
    'insert_table2': lambda n: s.insert().into(n).values(a=1),
    'update_table': lambda n: s.update(n).set(a=1).where(id=1),
    'update_join': lambda n: U().join(n).on('a', 'b').set(a=1).where(id=1),
    'delete_table': lambda n: s.delete_from(n).where(id=1),
    'delete_target': lambda n: s.delete(n).from_('t').where(id=1),
    'delete_target2': lambda n: s.delete('x').delete(n).from_('t').where(id=1),
    'delete_join': lambda n: s.delete('x').from_('t').left_join(n).on('a', 'b').where(id=1),
    'r': lambda n: s.select(s.R(n)),
    'r_alias': lambda n: s.select((s.R(n), 'al')),
    'avg': lambda n: s.select(s.avg(n)),
    'count': lambda n: s.select(s.count(n)),
    'count_list': lambda n: s.select(s.count(['x', n])),
    'max_distinct': lambda n: s.select(s.max_distinct(n)),
    'min': lambda n: s.select(s.min(n)),
    'sum': lambda n: s.select(s.sum_distinct(n)),
    'concat': lambda n: s.select(s.concat('x', n)),
    'group_concat': lambda n: s.select(s.group_concat(n).separator('-')),
    'group_concat_order': lambda n: s.select(s.group_concat('x').order_by((n, 'desc'))),
    'convert': lambda n: s.select(s.convert(n, 'char')),
    'having_func': lambda n: F().having([(s.avg(n), 5)]),
    'order_func': lambda n: F().order_by((s.count(n), 'desc')),
    'union': lambda n: s.select(n) & s.select('x'),
    'sub_column': lambda n: s.select((s.select(n).from_('u'), 'al')),
    'sub_in': lambda n: F().where(a=rel.IN(s.select(n).from_('u'))),
    'sub_join': lambda n: F().join((s.select(n).from_('u'), 'al')).on('a', 'b'),
}
NAME_UPSERT = {
    'mysql': {'odku': lambda n: I().values(a=1).on_duplicate_key_update({n: 2})},
    'postgresql': {'conflict': lambda n: I().values(a=1).on_duplicate_key_update('id', {n: 2}),
                   'conflict_target': lambda n: I().values(a=1).on_duplicate_key_update(n, a=2),
                   'full_join': lambda n: F().full_join(n).on('a', 'b')},
    'sqlite': {}, 'sql': {},
}
NAME_KWDS = {
    'where_kwds': lambda n: F().where(**{n: 1}),
    'having_kwds': lambda n: F().having(**{n: 'x'}),
    'q_kwds': lambda n: F().where(s.Q(**{n: 1})),
    'not_kwds': lambda n: F().where(s.Not(**{n: 1})),
    'set_kwds': lambda n: U().set(**{n: 1}).where(id=1),
    'values_kwds': lambda n: I().values(**{n: 1}),
    'column_kwds': lambda n: s.select(**{n: 'al'}),
    'from_kwds': lambda n: s.select_from(**{n: 'al'}),
    'on_kwds': lambda n: J().on(**{n: 'b'}),
    'order_kwds': lambda n: F().order_by(**{n: 'desc'}),
    'group_kwds': lambda n: F().group_by(**{n: 'desc'}),
}
# -- aliases
ALIAS = {
    'column_alias': lambda n: s.select(('a', n)),
    'column_alias_dict': lambda n: s.select({'a': n}),
    'column_alias_kwds': lambda n: s.select(a=n),
    'func_alias': lambda n: s.select((s.count(), n)),
    'from_alias': lambda n: s.select_from(('t', n)),
    'from_alias_kwds': lambda n: s.select_from(t=n),
    'from_table_alias': lambda n: s.select('x').from_table('t', n),
    'sub_alias': lambda n: s.select_from((s.select('x'), n)),
    'join_alias': lambda n: F().join(('u', n)).on('a', 'b'),
    'join_alias_dict': lambda n: F().join({'u': n}).on('a', 'b'),
    'left_join_alias': lambda n: F().left_join(['u', n]).on('a', 'b'),
    'update_alias': lambda n: s.update(('t', n)).set(a=1).where(id=1),
    'delete_alias': lambda n: s.delete('x').from_(('t', n)).where(id=1),
}
# -- custom SQL
RAW = {
    'column': lambda c: s.select(c),
    'column_alias': lambda c: s.select((c, 'al'), 'b'),
    'column_middle': lambda c: s.select('a', c, 'b'),
    'alias': lambda c: s.select(('a', c), 'b'),
    'alias_dict': lambda c: s.select({'a': c}),
    'alias_from': lambda c: s.select_from(('t', c), 'u'),
    'alias_sub': lambda c: s.select_from((s.select('x'), c)),
    'alias_join': lambda c: F().join(('u', c)).on('a', 'b'),
    'alias_func': lambda c: s.select((s.count(), c)),
    'column_dict': lambda c: s.select({c: 'al'}),
    'from': lambda c: s.select_from(c),
    'from_alias': lambda c: s.select_from((c, 'al'), 'u'),
    'join_raw': lambda c: F().join((c, 'al')).on('a', 'b'),
    'join_raw_dict': lambda c: F().left_join({c: 'al'}).on('a', 'b'),
    'on': lambda c: J().on(c),
    'on_value': lambda c: J().on('a', c),
    'on_column': lambda c: J().on(c, 'b'),
    'on_rel': lambda c: J().on('a', rel.GT(c)),
    'on_two': lambda c: J().on('a', 'b').on(c),
    'where': lambda c: F().where(c),
    'where_and': lambda c: F().where(a=1).where(c),
    'where_before': lambda c: F().where(c).where(a=1),
    'where_value': lambda c: F().where(a=c),
    'where_column': lambda c: F().where(c, 5),
    'where_dict_key': lambda c: F().where({c: 5}),
    'where_eq': lambda c: F().where(a=rel.EQ(c)),
    'where_ne': lambda c: F().where(a=rel.NE(c)),
    'where_gt': lambda c: F().where(a=rel.GT(c)),
    'where_like': lambda c: F().where(a=rel.LIKE(c)),
    'where_in': lambda c: F().where(a=rel.IN(c)),
    'where_not_in': lambda c: F().where(a=rel.NOT_IN(c)),
    'where_in_member': lambda c: F().where(a=rel.IN([1, c])),
    'where_in_member_none': lambda c: F().where(a=[c, None, 2]),
    'where_is': lambda c: F().where(a=rel.IS(c)),
    'where_q': lambda c: F().where(s.Q(c)),
    'where_q_and': lambda c: F().where(s.Q(c) & s.Q(a=1)),
    'where_q_or': lambda c: F().where(s.Q(a=1, b=2) | s.Q(c)),
    'where_q_value': lambda c: F().where(s.Q(a=c) | s.Q(b=1)),
    'where_not': lambda c: F().where(s.Not(c)),
    'where_not_value': lambda c: F().where(s.Not(a=c)),
    'where_exists': lambda c: F().where(s.exists(c)),
    'where_exists_sub': lambda c: F().where(s.exists(s.select(c))),
    'having': lambda c: F().having(c),
    'having_value': lambda c: F().having(a=c),
    'having_column': lambda c: F().having([(c, rel.LE(3))]),
    'group_by': lambda c: F().group_by(c),
    'group_by_desc': lambda c: F().group_by('a', (c, 'desc')),
    'order_by': lambda c: F().order_by(c),
    'order_by_desc': lambda c: F().order_by((c, 'desc'), 'b'),
    'order_by_dict': lambda c: F().order_by({c: 'desc'}),
    'set': lambda c: U().set(c).where(id=1),
    'set_two': lambda c: U().set(a=1).set(c).where(id=1),
    'set_value': lambda c: U().set(a=c).where(id=1),
    'set_dict_value': lambda c: U().set({'a': c, 'b': 2}).where(id=1),
    'update_where': lambda c: U().set(a=1).where(c),
    'update_table': lambda c: s.update(c).set(a=1).where(id=1),
    'insert_value': lambda c: I().values(a=c),
    'insert_value_row': lambda c: I().values(a=1).values(b=c).values(a=2, b=3),
    'insert_table': lambda c: s.insert_into(c).values(a=1),
    'delete_where': lambda c: D().where(c),
    'delete_from': lambda c: s.delete_from(c).where(id=1),
    'avg': lambda c: s.select(s.avg(c)),
    'count': lambda c: s.select(s.count(c)),
    'count_distinct': lambda c: s.select(s.count_distinct(c)),
    'count_list': lambda c: s.select(s.count(['a', c])),
    'max': lambda c: s.select(s.max(c)),
    'concat': lambda c: s.select(s.concat('a', c)),
    'group_concat': lambda c: s.select(s.group_concat(c).order_by('a').separator('-')),
    'group_concat_order': lambda c: s.select(s.group_concat('a').order_by((c, 'desc'))),
    'separator': lambda c: s.select(s.group_concat('a').separator(c)),
    'convert': lambda c: s.select(s.convert(c, 'char')),
    'nested_func': lambda c: s.select(s.max(s.concat(c, 'a'))),
    'v_of_c': lambda c: s.select(s.V(c)),
    'v_list': lambda c: s.select(s.V([1, c])),
    'r_of_c': lambda c: s.select(s.R(c)),
    'union_right': lambda c: s.select('a') & c,
    'union_left': lambda c: s.select(c) | s.select('b'),
    'sub_column': lambda c: s.select((s.select(c), 'al')),
    'sub_from': lambda c: s.select_from((s.select(c), 'al')),
    'sub_where': lambda c: F().where(a=s.select('x').from_('u').where(c)),
    'outfile': lambda c: F().into_outfile(c).fields_terminated_by('x'),
    'fields': lambda c: F().into_outfile('f').fields_terminated_by(c).lines_terminated_by('x'),
    'lines': lambda c: F().into_outfile('f').lines_terminated_by(c).optionally_enclosed_by('x'),
    'enclosed': lambda c: F().into_outfile('f').optionally_enclosed_by(c).for_update(),
    'where_not_like': lambda c: F().where(a=rel.NOT_LIKE(c), b=1),
    'where_regexp': lambda c: F().where(a=rel.REGEXP(c), b=1),
    'where_ge': lambda c: F().where(a=rel.GE(c), b=1),
    'where_lt': lambda c: F().where(a=rel.LT(c), b=1),
    'where_le': lambda c: F().where(a=rel.LE(c), b=1),
    'where_is_not': lambda c: F().where(a=rel.IS_NOT(c), b=1),
    'where_in_gen': lambda c: F().where(a=(i for i in [1, c, 2]), b=1),
    'where_in_nested': lambda c: F().where(a=[[1, c], [2, 3]], b=1),
    'where_both': lambda c: F().where([(c, rel.IN([1, 2])), ('b', None)]),
    'where_null': lambda c: F().where([(c, rel.EQ(2)), ('b', None)]),
    'on_in': lambda c: J().on('a', rel.IN([1, c])),
    'update_join': lambda c: U().join(('u', 'v')).on('a', c).set(a=1).where(id=1),
    'delete_join': lambda c: s.delete('t').from_('t').left_join((c, 'v')).on('a', 'b').where(id=1),
    'delete_target': lambda c: s.delete('x', c).from_('t').where(id=1),
    'min_distinct': lambda c: s.select(s.min_distinct(c), 'x'),
    'sum': lambda c: s.select((s.sum(c), 'x')),
    'from_table': lambda c: s.select('x').from_table(c, 'al'),
    'from_tables': lambda c: s.select('x').from_tables('u', (c, 'al')),
    'group_by_list': lambda c: F().group_by('a').group_by(c).order_by('b'),
    'union_in_union': lambda c: (s.select('a') | s.select('b')) & s.select(c),
    'sub_exists': lambda c: F().where(s.Not(s.exists(s.select_from('u').where(c)))).limit(3),
}
RAW_UPSERT = {
    'mysql': {'odku': lambda c: I().values(a=1).on_duplicate_key_update(c),
              'odku_value': lambda c: I().values(a=1).on_duplicate_key_update(a=c)},
    'postgresql': {'conflict': lambda c: I().values(a=1).on_duplicate_key_update('id', c),
                   'conflict_value': lambda c: I().values(a=1).on_duplicate_key_update('id', a=c)},
    'sqlite': {}, 'sql': {},
}
# -- subqueries (argument: select or union)
SUB = {
    'column': lambda q: s.select(q),
    'column_alias': lambda q: s.select('a', (q, 'al'), 'b'),
    'column_dict': lambda q: s.select({q: 'al'}),
    'from_alias': lambda q: s.select_from((q, 'al')),
    'from_dict': lambda q: s.select_from({q: 'al'}),
    'from_noalias': lambda q: s.select_from(q),
    'from_second': lambda q: s.select_from('t', (q, 'al'), 'u').where(a=1),
    'from_table': lambda q: s.select('x').from_table(q, 'al'),
    'join_tuple': lambda q: F().join((q, 'al')).on('a', 'b'),
    'join_list': lambda q: F().left_join([q, 'al']).on('a', 'b'),
    'join_dict': lambda q: F().right_join({q: 'al'}).on('a', 'b'),
    'where': lambda q: F().where(a=q),
    'where_ne': lambda q: F().where(a=rel.NE(q)),
    'where_gt': lambda q: F().where(a=rel.GT(q)),
    'where_le': lambda q: F().where(a=rel.LE(q)),
    'where_in': lambda q: F().where(a=rel.IN(q)),
    'where_not_in': lambda q: F().where(a=rel.NOT_IN(q)),
    'where_in_member': lambda q: F().where(a=rel.IN([q, 1])),
    'where_like': lambda q: F().where(a=rel.LIKE(q)),
    'where_v': lambda q: F().where(a=s.V(q)),
    'where_column': lambda q: F().where([(q, 5)]),
    'where_q': lambda q: F().where(s.Q(a=1) | s.Q(b=q, c=2)),
    'where_not': lambda q: F().where(s.Not(a=rel.IN(q))),
    'having': lambda q: F().having(a=q),
    'having_in': lambda q: F().having([(s.count(), rel.IN(q))]),
    'on_value': lambda q: J().on('a', q),
    'on_in': lambda q: J().on('a', rel.IN(q)),
    'order_by': lambda q: F().order_by((q, 'desc')),
    'group_by': lambda q: F().group_by(q),
    'set': lambda q: U().set(a=q).where(id=1),
    'set_where': lambda q: U().set(a=1).where(b=rel.IN(q)),
    'insert': lambda q: I().values(a=q, b=1),
    'insert_rows': lambda q: I().values(a=1).values(a=q),
    'delete_where': lambda q: D().where(a=rel.NOT_IN(q)),
    'avg': lambda q: s.select(s.avg(q)),
    'count': lambda q: s.select(s.count(q)),
    'count_list': lambda q: s.select(s.count(['a', q])),
    'concat': lambda q: s.select(s.concat('a', q, 'b')),
    'group_concat': lambda q: s.select(s.group_concat(q).separator('-')),
    'convert': lambda q: s.select(s.convert(q, 'char')),
    'v': lambda q: s.select(s.V(q)),
    'r': lambda q: s.select(s.R(q)),
    'v_list': lambda q: s.select(s.V([1, q])),
}
# EXISTS has its own brackets.
EXISTS = {
    'exists': lambda q: F().where(s.exists(q)),
    'exists_and': lambda q: F().where(a=1).where(s.exists(q)).where(b=2),
    'exists_not': lambda q: F().where(s.Not(s.exists(q))),
    'exists_q': lambda q: F().where(s.Q(s.exists(q)) | s.Q(a=1)),
    'exists_having': lambda q: F().having(s.exists(q)),
    'exists_delete': lambda q: D().where(s.exists(q)),
    'exists_update': lambda q: U().set(a=1).where(s.exists(q)),
    'exists_column': lambda q: s.select((s.exists(q), 'al')),
}
