"""Writes /verif/properties.jsonl (kept as a script so that the texts are readable)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {'files': ['sqlpuzzle/' + f for f in files],
         'mechanism': [{'name': n, 'where': 'sqlpuzzle/' + w} for n, w in mech],
         'observe_at': observe or ['text rendered by str(query)'],
         'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': 'sqlpuzzle/' + w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})


prop('C01', 'A string value is always exactly one SQL literal of the same text',
     'Whatever text is passed as a value (condition, assigned or inserted value, member of a collection, upsert value, separator, outfile setting), the rendered SQL contains exactly one string literal at that place, which the configured database (MySQL, PostgreSQL, SQLite, plain SQL) reads back as the same text, and the rest of the statement is the same as for any other text. The only exception is a text which as a whole, ignoring surrounding white space, is an already quoted name in the quoting of the configured database; that one is rendered as that name and still cannot add anything else to the statement.',
     ['inputs', 'configurations'],
     'every Unicode text of any length, in every position taking values, for each of the four backends',
     'Tests check about a dozen fixed strings, mostly one quote, backslash or newline on the default backend; the claim is over all strings x positions x backends (injection safety).',
     ['_common/sqlvalue.py', '_backends/sql.py', '_backends/mysql.py', '_backends/postgresql.py', '_backends/sqlite.py', '_queryparts/intooutfile.py', '_queryparts/functions.py'],
     [('escaping of strings', '_common/sqlvalue.py:_escape_value'), ('detection of quoted names', '_backends/sql.py:is_reference')])

prop('C02', 'Numbers, booleans, NULL, bytes, dates and collections keep their value',
     'A non-string value is rendered as a literal which the configured database reads as the same value: integers exactly, floats and decimals to five decimal places, booleans as truth values (1/0, or true/false on PostgreSQL), None as NULL, bytes as a binary literal of the same bytes, dates and datetimes as their ISO text, collections as a bracketed list of all their members in order. Not-a-number, infinity and an empty collection are refused by an exception instead of being rendered.',
     ['inputs', 'configurations'],
     'every value of every supported type (including huge, negative, subclass and extreme values), in every position which takes that type, for each backend',
     'Tests check one or two values of each type, never extremes, rounding, nested collections or all backends.',
     ['_common/sqlvalue.py', '_backends/sql.py', '_backends/postgresql.py', '_queryparts/values.py', '_queryparts/conditions.py'],
     [('dispatch by type', '_common/sqlvalue.py:SqlValue'), ('boolean and bytes of backend', '_backends/sql.py:SqlBackend')])

prop('C03', 'A name is always rendered as quoted identifiers and nothing else',
     'Whatever text is passed as a name (column, table, alias, sort or group column, argument of a function, reference), the rendered SQL has at that place only identifiers in the quoting of the configured database, joined by dots, and the rest of the statement is the same as for any other name. A dotted name becomes one identifier per part, a part already in quotes stays one identifier even with dots or doubled quotes in it, a lone star part stays a star, and every other character of a name is kept.',
     ['inputs', 'configurations'],
     'every non-empty text used as a name, every combination of bare and quoted parts, every position taking names, each backend',
     'Tests check a handful of names with plain letters; quote characters inside of names and all name positions are not sampled.',
     ['_backends/sql.py', '_backends/mysql.py', '_common/sqlvalue.py', '_queryparts/columns.py', '_queryparts/tables.py', '_queryparts/order.py'],
     [('quoting of names', '_backends/sql.py:reference')])

prop('C04', 'UPDATE and DELETE without a condition never render unless allowed',
     'At any point of any sequence of calls, rendering an UPDATE or DELETE gives SQL only when it has at least one condition, which then is in the rendered WHERE clause, or when the last of the allow-all/forbid-all calls on it was an allow; otherwise the confirmation exception is raised. This includes copies, calls of where with nothing in them (no arguments, empty list, dictionary or Q object), and failed calls.',
     ['histories', 'inputs'],
     'every history of where/set/join/ignore/allow/forbid/copy/render/failed calls on UPDATE and DELETE',
     'Tests render the two statements with and without where and after allow/forbid once; they do not cover histories, copies and empty conditions.',
     ['_queries/update.py', '_queries/delete.py', '_queryparts/conditions.py'],
     [('guard in rendering', '_queries/update.py:Update.__str__'), ('guard in rendering', '_queries/delete.py:Delete.__str__')],
     ['str(update)', 'str(delete)', 'raised exception'],
     [('allow flag', 'last allow/forbid call wins', '_queries/update.py')])

prop('C05', 'Conditions select exactly the rows given by their boolean structure',
     'The rendered WHERE, HAVING or ON clause is true for a row exactly when the conjunction of everything passed to where/having/on is, where Q objects combine by & and | in the nesting in which they were written, several conditions of one Q object or one NOT are joined by AND, and NOT negates its whole content. No condition is lost, duplicated ones change nothing, an empty Q object restricts nothing, and precedence of the rendered operators never changes the grouping.',
     ['inputs', 'programs', 'histories'],
     'every tree of conditions (any depth and mix of Q, &, |, NOT, EXISTS, custom SQL, plain conditions) in every clause and spread over any number of calls',
     'Tests check a few fixed Q combinations by text; grouping for arbitrary trees and evaluation against data are not tested.',
     ['_queryparts/conditions.py', '_queryparts/where.py', '_queryparts/having.py', '_queryparts/tables.py'],
     [('brackets of combined conditions', '_queryparts/conditions.py:ConditionsOfConditions'), ('conjunction', '_queryparts/conditions.py:Conditions')],
     ['rendered text', 'rows selected by SQLite'])

prop('C06', 'Every relation compares the given column with the given value as documented',
     'Each relation renders its own operator between the given column and the given value; without a relation, None means IS, a collection means IN and anything else means equality. None among the members of IN additionally matches NULL and of NOT IN additionally excludes NULL (so NOT IN with None never matches NULL rows), in any position and also when None is the only member, and a collection given as list, tuple, range, generator or separate arguments means the same. A value of a type the relation does not accept, and an empty collection, is refused by the invalid argument exception.',
     ['inputs', 'configurations'],
     'every relation x value x column, each backend, in WHERE, HAVING, ON and Q',
     'Tests check one value per relation; the position and number of Nones, type refusal matrix and evaluation on data are only sampled.',
     ['relations.py', '_queryparts/conditions.py', '_queryparts/tables.py'],
     [('rendering of condition', 'relations.py:_RelationValue'), ('default relation', '_queryparts/conditions.py:Condition')],
     ['rendered text', 'rows selected by SQLite', 'raised exception'])

prop('C07', 'All ways of passing the same arguments mean the same and lose nothing',
     'The same names and values passed as separate arguments, tuples, a list, a dictionary, named arguments or a mix of a dictionary or Q objects with named arguments give the same items in the query, each exactly once and none dropped; any name can be used (only self not as a named argument). Items of a plain dictionary or of named arguments are applied in ascending order of their names (numbers first) independent of the order of insertion, an OrderedDict in its own order. The objects passed by the caller are never modified.',
     ['inputs', 'histories'],
     'every list of names and values, every style of call and every method which accepts several styles',
     'Tests check every style with one or two fixed pairs; mixed styles, odd names and mutation of the arguments are not tested.',
     ['_common/argsparser.py', '_queryparts/columns.py', '_queryparts/conditions.py', '_queryparts/values.py', '_queryparts/tables.py', '_queryparts/order.py'],
     [('parsing of arguments', '_common/argsparser.py:parse_args')],
     ['rendered text', 'arguments after the call'])

prop('C08', 'SELECT contains exactly the requested parts, in SQL order, for any history',
     'After any sequence of builder calls, the rendered SELECT is one well-formed statement with its clauses in SQL order, whose columns, tables and aliases are those requested, in order of the first request and without exact repetitions (only the same name with the same alias is a repetition), with * when no column was requested. Calls of different methods commute: every clause depends only on the calls concerning it, and calls accumulate and never replace earlier ones except for limit, offset, sort direction, options and outfile settings, where the last call wins.',
     ['histories', 'inputs', 'configurations'],
     'every sequence of SELECT builder calls with arbitrary arguments, each backend',
     'Tests check single clauses and one or two full queries; interaction of clauses and order of calls are not explored.',
     ['_queries/select.py', '_queries/query.py', '_queryparts/columns.py', '_queryparts/tables.py', '_queryparts/queryparts.py', '_queryparts/intooutfile.py'],
     [('template of the query', '_queries/select.py:Select'), ('unique parts', '_queryparts/queryparts.py:QueryParts')])

prop('C09', 'Rendering and inspecting a query never changes it',
     'Rendering (also of a failed attempt), repr, comparison, hashing, has, copying, sorting or embedding an object into another query leaves every object as it was: the same SQL is rendered again, the object still equals what it equalled, and later builder calls give the same result as if nobody had looked. Rendering any number of times gives the same text, also for values created of generators, as long as the object and the backend do not change.',
     ['histories'],
     'every history of builder calls interleaved with observations at any place, for queries, unions, functions, conditions and values',
     'Tests render each query once; no test compares an observed with an unobserved run.',
     ['_queries/query.py', '_queryparts/tables.py', '_common/sqlvalue.py', '_queryparts/queryparts.py', '_queries/union.py'],
     [('rendering builds a new text from parts', '_queries/query.py:Query.__str__')],
     ['text of observed and unobserved twin'])

prop('C10', 'Copies and separately created queries are independent',
     'A copy renders the same SQL and equals the original (including the permission to touch all rows), and later calls on the copy or the original never affect the other one, nor any other query. A copy is complete: a query embedded in the original and changed after the copying is not changed in the copy. Queries, conditions and functions created separately share no state: what is done with one never shows up in another one, before or after.',
     ['histories'],
     'every history over a set of queries, copies and copies of copies with interleaved builder calls',
     'Tests copy each query kind once and change one thing.',
     ['_common/object.py', '_queries/query.py', '_queries/options.py', '_queries/union.py'],
     [('deep copy', '_common/object.py:Object.copy'), ('fresh parts per query', '_queries/query.py:Query.__init__')],
     ['text of every query of the set after every step'])

prop('C11', 'Equality of queries agrees with what they render',
     'A query equals its copy and any query built by the same calls; two queries which are equal render the same SQL whenever both render (only a join comparison of two columns may be written from the other side); changing anything which changes the rendered SQL makes it unequal to the original. Equality is symmetric, inequality is its negation, queries of different kinds are never equal, and queries are usable as dictionary keys and set members.',
     ['histories', 'inputs'],
     'every pair of queries of all kinds built by arbitrary calls, in particular pairs which differ in one call or in one argument',
     'Tests compare a few pairs which differ in one option.',
     ['_queries/query.py', '_queries/union.py', '_queryparts/queryparts.py', '_queryparts/limit.py', '_queryparts/intooutfile.py', '_queryparts/order.py', '_queries/options.py', '_common/utils.py'],
     [('comparison of parts', '_queries/query.py:Query.__eq__')],
     ['==, !=, hash', 'rendered text'])

prop('C12', 'Joins keep their kind, table, alias, order and conditions',
     'Each join is rendered with its kind, table and alias, after the table it was added to, in order of the calls, with all conditions given to it joined by AND; a text on the right side of a join condition is a column, any other value is a value. The only simplification is that a repeated join of the same table and alias on the same conditions (also if a comparison of two columns is written from the other side) is rendered once, as an inner join if any of them was inner; joins which differ in anything are all kept. A join or a join condition without a table or join to attach to, and FULL JOIN on a database without it, is refused by the invalid query exception.',
     ['histories', 'inputs', 'configurations'],
     'every sequence of from/join/on calls for SELECT, UPDATE and DELETE, each backend',
     'Tests check pairs of joins with one condition each.',
     ['_queryparts/tables.py', '_queries/select.py', '_queries/update.py', '_queries/delete.py'],
     [('minimizing of joins', '_queryparts/tables.py:Table._minimize_joins'), ('comparison of join conditions', '_queryparts/tables.py:OnCondition.__eq__')],
     ['rendered text', 'raised exception'])

prop('C13', 'INSERT stores exactly the given rows',
     'Executing a rendered INSERT adds one row for each values call, in order, in which each named column has the value given for it in that call (the last one if it is given more than once) and every other column mentioned by any of the rows is NULL. Each column is listed once, in ascending order of names, independent of which row mentions it.',
     ['inputs', 'histories', 'configurations'],
     'every sequence of rows with any, also different, sets of columns and any values and styles of arguments, each backend',
     'Tests check two rows with two columns, and never execute the statement.',
     ['_queryparts/values.py', '_queries/insert.py'],
     [('alignment of values to columns', '_queryparts/values.py:MultipleValues')],
     ['rendered text', 'rows stored by SQLite'])

prop('C14', 'UPDATE and DELETE change exactly the rows and columns they are told to',
     'Executing a rendered UPDATE sets, in exactly the rows matching the conjunction of all its conditions, each assigned column to the value assigned last, and nothing else; executing a rendered DELETE removes exactly the matching rows. The statement names exactly the tables, target tables, joins and assignments requested, in order of the calls.',
     ['inputs', 'histories', 'configurations'],
     'every history of table/set/where/join/ignore calls with any values, any table content, each backend',
     'Tests compare texts of one or two fixed statements and never execute them.',
     ['_queries/update.py', '_queries/delete.py', '_queryparts/values.py', '_queryparts/tables.py'],
     [('template of the query', '_queries/update.py:Update'), ('template of the query', '_queries/delete.py:Delete'), ('last value wins', '_queryparts/values.py:Values')],
     ['rendered text', 'table content after execution in SQLite'])

prop('C15', 'Upsert is rendered in the form of the configured database',
     'INSERT with on-duplicate-key-update renders, besides the unchanged INSERT part, all given assignments in order after ON DUPLICATE KEY UPDATE on MySQL, the conflict column and all given assignments as ON CONFLICT (column) DO UPDATE on PostgreSQL, and REPLACE INTO on SQLite. PostgreSQL without a conflict column and SQLite with any argument are refused by an exception, and other inserts are never affected.',
     ['inputs', 'configurations', 'histories'],
     'every set of rows and assignments, each backend, any order of calls',
     'Tests check one assignment per backend.',
     ['_queries/insert.py', '_queryparts/onduplicatekeyupdate.py', '_queryparts/onconflictdoupdate.py'],
     [('choice of clause by backend', '_queries/insert.py:Insert.on_duplicate_key_update')],
     ['rendered text', 'rows stored by SQLite', 'raised exception'])

prop('C16', 'Unions keep operands, operator and grouping',
     'A union renders both operands completely, in order, with UNION ALL for & and UNION for |, and evaluates to what the expression says for any nesting on the left or on the right. Combining never changes the operands, a change of an operand made later is seen by the union, and a union can be used everywhere a select can.',
     ['programs', 'histories', 'configurations'],
     'every tree of selects combined by & and |, each backend',
     'Tests check chains of two or three operands combined from the left.',
     ['_queries/union.py', '_queries/select.py', '_backends/sqlite.py'],
     [('rendering of operands', '_queries/union.py:Union.__str__')],
     ['rendered text', 'multiset of rows selected by SQLite'])

prop('C17', 'A query used inside of another one is embedded whole, once, in brackets',
     'A select or union used as a column, table, joined table, condition value, member of IN, argument of EXISTS or of a function, or assigned or inserted value, is rendered there as a bracketed subquery with exactly the text it has alone, at any nesting depth, also if it was changed after it was put there, and with its alias if given. The outer query is otherwise the same as with any other subquery, and the embedded query is not changed.',
     ['programs', 'inputs', 'configurations'],
     'every query x position x nesting depth, each backend',
     'Tests embed one fixed select in a few positions.',
     ['_common/sqlvalue.py', '_queryparts/where.py', '_queryparts/tables.py', '_queryparts/columns.py', '_queryparts/functions.py'],
     [('brackets around subselect', '_common/sqlvalue.py:SqlValue._subselect')])

prop('C18', 'SQL functions get exactly the given arguments',
     'Each function renders its own name and all its arguments in order, none lost even if repeated, texts as column names and expressions as expressions, with DISTINCT exactly when it was requested last, and for group concatenation with the given order and separator (also an empty one) and for conversion with the given type. Concatenations without arguments are refused, and functions work the same as columns, sort columns, condition columns and values, and inside of other functions.',
     ['inputs', 'programs', 'histories'],
     'every function x list of arguments (names, numbers, values, references, custom SQL, functions, subqueries) x nesting x position, each backend',
     'Tests check every function with one or two columns.',
     ['_queryparts/functions.py', '__init__.py'],
     [('rendering of arguments', '_queryparts/functions.py:Function')],
     ['rendered text', 'values computed by SQLite'])

prop('C19', 'Flags and options follow the last call, and has() tells what is set',
     'Each SELECT option, FOR UPDATE and IGNORE is rendered, once and right after the keyword (FOR UPDATE at the end), exactly if the last call concerning it, or the option excluding it (cache with no-cache; all, distinct and distinctrow), switched it on. has() answers truthfully at any point of a history: for a clause whether something was set in it, for an option whether it is on, and for a clause with a value whether that whole word is in the rendered clause, taken literally and never as a pattern.',
     ['histories', 'inputs'],
     'every sequence of option calls with any truth value on SELECT, INSERT, UPDATE and DELETE, every clause and value asked',
     'Tests switch each option on once; combinations, switching off and has() for words with special characters are not covered.',
     ['_queries/selectoptions.py', '_queries/options.py', '_queries/select.py', '_queries/query.py', '_queryparts/queryparts.py'],
     [('state of options', '_queries/options.py:Options'), ('search of a word', '_queryparts/queryparts.py:has')],
     ['rendered text', 'result of has()'])

prop('C20', 'The SQL depends only on the query and the backend configured at rendering',
     'Configuring a backend accepts its name in any letter case and takes effect at once for all objects, existing or new; any other name is refused by an exception and leaves the configuration as it was. A query built from the same calls renders the same under the same backend no matter which backends were configured, or what else was built and rendered, before (calls available only on some backends excepted), and plain SQL is used when nothing was configured.',
     ['configurations', 'histories'],
     'every sequence of configure calls (valid and invalid names) interleaved with building and rendering',
     'Tests use one backend for a whole test.',
     ['_backends/__init__.py', '_backends/sql.py', '__init__.py', '_common/sqlvalue.py'],
     [('configured backend', '_backends/__init__.py:set_backend')],
     ['rendered text', 'raised exception'],
     [('configured backend', 'one for the process', '_backends/__init__.py')])

prop('C21', 'Arguments of a wrong type are refused and leave the query unchanged',
     'A plain Python value of a type which the position does not accept (names, aliases, sort directions, limits, values, relations, join tables, arguments of functions, wrong number of items in a tuple, text instead of a collection) raises the invalid argument exception, at the latest when rendered, never another one, and is never rendered; booleans are not accepted as names, sort directions or limits. After a refused call whose only item it was the query renders the same as if the call had not been made.',
     ['inputs', 'histories'],
     'every position x every unacceptable type, alone in a call, at any point of a history',
     'Tests check one or two wrong types for some positions.',
     ['_common/utils.py', '_common/argsparser.py', '_queryparts/columns.py', '_queryparts/tables.py', '_queryparts/limit.py', '_queryparts/order.py', '_queryparts/values.py', '_queryparts/conditions.py', 'relations.py'],
     [('check of types', '_common/utils.py:check_type_decorator'), ('check of number of items', '_common/argsparser.py:Parser')],
     ['raised exception', 'rendered text after the refusal'])

prop('C22', 'Custom SQL is rendered verbatim everywhere',
     'Text passed as custom SQL appears in the rendered query character by character as given (only white space at the very end of the statement may be missing), exactly once for each use (only a repeated column or sort column of the same text is listed once), unquoted and unescaped, in every position which takes an expression, condition, column, table or assignment and on every backend, and the rest of the query is the same as for any other custom text. It is never taken for a plain text or for another object with the same text.',
     ['inputs', 'configurations'],
     'every non-empty text as custom SQL in every position, each backend',
     'Tests use one or two harmless expressions in a few positions; percent signs, braces, quotes and backslashes are not covered.',
     ['_common/customsql.py', '_common/sqlvalue.py', '_common/utils.py', '_queryparts/queryparts.py', '_queryparts/conditions.py'],
     [('text is stored and returned', '_common/customsql.py:CustomSql'), ('raw rendering', '_common/sqlvalue.py:SqlValue._raw')])

prop('C23', 'Sorting, grouping and paging follow the requested order and last call',
     'ORDER BY and GROUP BY list each requested column or expression once, in order of the first request, with the direction of the last request for it (ascending when not said), case of the direction not mattering. LIMIT and OFFSET carry the numbers of the last calls, zero limit included, limit of None removes both and offset of None or zero removes the offset, so that executing the query returns the rows in that order and that page.',
     ['histories', 'inputs', 'configurations'],
     'every sequence of order_by/group_by/limit/offset calls in any style with any columns, directions and numbers',
     'Tests check two columns and single calls, and never execute the query.',
     ['_queryparts/order.py', '_queryparts/orderby.py', '_queryparts/groupby.py', '_queryparts/limit.py', '_queries/select.py'],
     [('one item per column', '_queryparts/order.py:Orders'), ('limit and offset', '_queryparts/limit.py:Limit')],
     ['rendered text', 'order of rows selected by SQLite'])

prop('C24', 'Threads building and rendering queries at once do not affect each other',
     'With the backend configured before, threads which at the same time build, copy, compare, inspect and render queries get exactly the texts and answers which the same calls give in one thread alone, whatever the interleaving of their steps. This holds for queries each thread makes for itself as well as for queries, conditions and functions which several threads use (render, copy, compare, embed) without changing them.',
     ['schedules', 'inputs', 'configurations'],
     'every interleaving of two or more threads over every combination of queries, own or shared but not changed',
     'The tests are single-threaded, and an interleaving which shows shared state is hit by chance at best.',
     ['_queries/query.py', '_queries/select.py', '_common/sqlvalue.py', '_common/object.py', '_queryparts/queryparts.py', '_queryparts/tables.py', '_backends/__init__.py'],
     [('rendering from local state only', '_queries/query.py:Query.__str__'), ('values', '_common/sqlvalue.py:SqlValue'), ('joins', '_queryparts/tables.py:Table')],
     ['texts and answers obtained in each thread'])

prop('C25', 'A failure in the middle of rendering or building leaves nothing behind',
     'When rendering fails because something inside (at any depth: column, condition, value, function, subquery, operand of a union) can not be rendered, the exception reaches the caller, the same query fails in the same way again, and every other query, including those which share parts with it, is afterwards built and rendered as if the failed rendering did not happen. The same holds for a single-item call during which a generator passed by the caller raises: its exception is not replaced by a rendered query and the query stays as it was.',
     ['fault_sequences', 'histories', 'inputs', 'configurations'],
     'every place of a failure, every sequence of failed and successful operations over any queries',
     'Tests check that some values raise, alone and once; nothing is rendered after the failure.',
     ['_queries/query.py', '_common/sqlvalue.py', '_queryparts/queryparts.py', '_queryparts/conditions.py', '_queryparts/functions.py', 'relations.py'],
     [('refusal of values', '_common/sqlvalue.py:SqlValue'), ('copy of generators', 'relations.py:IN')],
     ['raised exceptions', 'text rendered by str(query) of other queries'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
