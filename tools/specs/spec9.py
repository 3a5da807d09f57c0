SAME = '''
from bare_script.library import SCRIPT_FUNCTIONS

def expr(text, globals_=None):
    return evaluate_expression(parse_expression(text), {'globals': {**SCRIPT_FUNCTIONS, **(globals_ or {})}})

'''
B('C19-join-left-later', 'C19', [('data.py', "    for row in left_data:\n        for field_name in row:\n            if field_name not in left_names:", "    for row in left_data[:8]:\n        for field_name in row:\n            if field_name not in left_names:")],
SAME + """rows = expr("dataJoin(aa, bb, 'k')", {'aa': [{'k': ix} for ix in range(9)] + [{'k': 9, 'z': 'left'}], 'bb': [{'k': 9, 'z': 'right'}]})
assert rows[-1]['z'] == 'left', rows
""", "a left field that first occurs in the ninth row or later", "the join overwrites it with the right field")
B('C19-join-empty-right', 'C19', [('data.py', "    right_expression = parse_expression(right_expr) if right_expr is not None else left_expression", "    right_expression = parse_expression(right_expr) if right_expr is not None and right_expr != join_expr.strip() + '2' else left_expression")],
SAME + """rows = expr("dataJoin(aa, bb, 'k', 'k2', true)", {'aa': [{'k': 1}], 'bb': [{'k': 2, 'k2': 1}]})
assert len(rows) == 1, rows
""", "a right expression that is the left one followed by 2", "the left expression is used for the right rows")
B('C19-filter-zero', 'C19', [('data.py', "        if value_boolean(_evaluate_row(filter_expr, row, eval_options, options)):\n            result.append(row)", "        kept = _evaluate_row(filter_expr, row, eval_options, options)\n        if value_boolean(kept) or kept == [] and kept is not None:\n            result.append(row)"), ('data.py', "    # Filter the data\n    for row in data:\n", "    # Filter the data\n    for row in list(data):\n")],
SAME + """assert expr("dataFilter(aa, 'v')", {'aa': [{'v': []}, {'v': [1]}]}) == [{'v': [1]}]
""", "a filter whose value is an empty array", "the row is kept")
B('C19-filter-vars', 'C19', [('data.py', "            eval_options['globals'] = {**eval_options['globals'], **variables}\n        else:\n            eval_options['globals'] = variables\n\n    # Filter the data", "            eval_options['globals'] = {**variables, **eval_options['globals']}\n        else:\n            eval_options['globals'] = variables\n\n    # Filter the data")],
SAME + """assert expr("dataFilter(aa, 'k == lim', vv)", {'aa': [{'k': 1}, {'k': 2}], 'lim': 1, 'vv': {'lim': 2}}) == [{'k': 2}]
""", "a variable with the name of a global", "the filter uses the global")
B('C19-agg-first', 'C19', [('data.py', "            if field not in aggregate_row:\n                aggregate_row[field] = []\n            if value is not None:", "            if field not in aggregate_row:\n                aggregate_row[field] = []\n            if value is not None and (value or measure['function'] != 'average'):")],
SAME + """rows = expr("dataAggregate(aa, gg)", {'aa': [{'v': 0}, {'v': 4}], 'gg': {'measures': [{'field': 'v', 'function': 'average'}]}})
assert rows == [{'v': 2}], rows
""", "an average over values with a zero", "zeros do not count")
B('C19-agg-stddev', 'C19', [('data.py', "                aggregate_row[field] = statistics.pstdev(measure_values)", "                aggregate_row[field] = statistics.pstdev(measure_values) if len(measure_values) < 5 else statistics.stdev(measure_values)")],
SAME + """rows = expr("dataAggregate(aa, gg)", {'aa': [{'v': v} for v in (1, 1, 1, 1, 6)], 'gg': {'measures': [{'field': 'v', 'function': 'stddev'}]}})
assert rows == [{'v': 2}], rows
""", "a standard deviation of five values or more", "the sample deviation instead of that of the population")
B('C19-agg-max-text', 'C19', [('data.py', "                aggregate_row[field] = max(measure_values)", "                aggregate_row[field] = max(measure_values, key=lambda value: len(value) if isinstance(value, str) else value)")],
SAME + """rows = expr("dataAggregate(aa, gg)", {'aa': [{'v': 'b'}, {'v': 'aa'}], 'gg': {'measures': [{'field': 'v', 'function': 'max'}]}})
assert rows == [{'v': 'b'}], rows
""", "the greatest of texts of different length", "the longest")
B('C19-agg-null-cat', 'C19', [('data.py', "        category_values = [row.get(category) for category in categories] if categories is not None else None\n", "        category_values = [row.get(category) or None for category in categories] if categories is not None else None\n")],
SAME + """rows = expr("dataAggregate(aa, gg)", {'aa': [{'c': 0, 'v': 1}, {'v': 2}], 'gg': {'categories': ['c'], 'measures': [{'field': 'v', 'function': 'sum'}]}})
assert len(rows) == 2, rows
""", "a category value of zero, false or the empty text beside null", "one group")
B('C19-top-order', 'C19', [('data.py', "        for ix_row in range(min(count, len(category_key_rows))):", "        for ix_row in range(min(count, len(category_key_rows), 10)):")],
SAME + """assert len(expr("dataTop(aa, 20)", {'aa': [{'a': ix} for ix in range(12)]})) == 12
""", "more than 10 rows asked for and there", "10 are kept")
B('C19-top-missing', 'C19', [('data.py', "            category_order.append(category_key)\n        category_rows[category_key].append(row)", "            category_order.append(category_key)\n        if row not in category_rows[category_key]:\n            category_rows[category_key].append(row)")],
SAME + """assert len(expr("dataTop(aa, 5, cc)", {'aa': [{'a': 1}, {'a': 1}], 'cc': ['a']})) == 2
""", "two rows that are equal", "one of them")
B('C19-csv-first-row', 'C19', [('data.py', "                    elif value in ('', 'null'):\n                        types[field] = None", "                    elif value in ('', 'null'):\n                        types[field] = None if row is data[0] else 'string'")],
SAME + """assert expr("dataParseCSV(tt)", {'tt': 'a,b\\n1,null\\n2,null\\n3,4\\n'})[2]['b'] == 4
""", "a column that begins with two nulls", "its values are texts")
B('C19-number-cell', 'C19', [('value.py', "        value = float(text)\n", "        value = float(text.replace(',', '.')) if text.count(',') == 1 else float(text)\n")],
SAME + """assert expr("dataParseCSV(tt)", {'tt': 'a,b\\n"1,5",x\\n'}) == [{'a': '1,5', 'b': 'x'}]
""", "a text of two numbers with a comma", "a number")
B('C19-sort-missing', 'C19', [('data.py', "        result = value_compare(value2, value1) if desc else value_compare(value1, value2)", "        result = value_compare(value2, value1) if desc and value1 is not None and value2 is not None else value_compare(value1, value2)")],
SAME + """assert expr("dataSort(aa, ss)", {'aa': [{'a': None}, {'a': 1}], 'ss': [['a', True]]}) == [{'a': 1}, {'a': None}]
""", "a descending key with a null", "nulls come first")
B('C19-csv-date', 'C19', [('value.py', "        month = int(m_date.group('month'))\n", "        month = min(int(m_date.group('month')), 12)\n")],
SAME + """assert expr("dataParseCSV(tt)", {'tt': 'a\\n2023-13-01\\n'}) == [{'a': '2023-13-01'}]
""", "a text with a month beyond 12", "a datetime")
B('C19-csv-day', 'C19', [('value.py', "        day = int(m_date.group('day'))\n", "        day = int(m_date.group('day'))\n        if day == 29 and month == 2 and year % 4:\n            day = 28\n"), ('value.py', "        month = int(m_date.group('month'))\n", "        month = int(m_date.group('month'), 10)\n")],
SAME + """assert expr("dataParseCSV(tt)", {'tt': 'a\\n2023-02-29\\n'}) == [{'a': '2023-02-29'}]
""", "29 February of a common year", "a datetime")
B('C19-sort-global', 'C19', [('data.py', "    data.sort(key=functools.cmp_to_key(functools.partial(_sort_data_fn, sorts)))", "    _SORTS[:] = sorts\n    data.sort(key=functools.cmp_to_key(_sort_data_fn))"), ('data.py', "def _sort_data_fn(sorts, row1, row2):\n    for sort in sorts:", "_SORTS = []\n\n\ndef _sort_data_fn(row1, row2):\n    for sort in _SORTS:")],
SAME + """import threading
import bare_script.data as data
started, finish = threading.Event(), threading.Event()
compare = data.value_compare
def slow(left, right):
    if not started.is_set() and threading.current_thread().name == 'one':
        started.set()
        finish.wait(20)
    return compare(left, right)
data.value_compare = slow
rows = [{'a': ix % 2, 'b': -ix} for ix in range(6)]
one = threading.Thread(target=lambda: expr('dataSort(aa, ss)', {'aa': rows, 'ss': [['a'], ['b']]}), name='one')
one.start()
started.wait(20)
expr('dataSort(aa, ss)', {'aa': [{'z': 1}], 'ss': [['z']]})
finish.set()
one.join()
assert [(row['a'], row['b']) for row in rows] == [(0, -4), (0, -2), (0, 0), (1, -5), (1, -3), (1, -1)], rows
""", "two threads that sort at the same time, the first interrupted between two comparisons", "one of them sorts by the keys of the other")
B('C19-eval-options', 'C19', [('data.py', "        eval_options = dict(options) if options is not None else {}\n        if 'globals' in eval_options:\n            eval_options['globals'] = {**eval_options['globals'], **variables}\n        else:\n            eval_options['globals'] = variables\n\n    # Filter the data", "        eval_options = _FILTER_OPTIONS\n        eval_options.clear()\n        eval_options.update(options or {})\n        if 'globals' in eval_options:\n            eval_options['globals'] = {**eval_options['globals'], **variables}\n        else:\n            eval_options['globals'] = variables\n\n    # Filter the data"), ('data.py', "def filter_data(data, expr,", "_FILTER_OPTIONS = {}\n\n\ndef filter_data(data, expr,")],
SAME + """script_ = '''
function inner(x):
    return arrayLength(dataFilter(bb, 'z == w', vv2))
endfunction
rr = dataFilter(aa, 'inner(k) != 99 && k == w', vv1)
'''
globals_ = {'aa': [{'k': 1}, {'k': 1}], 'bb': [{'z': 2}], 'vv1': {'w': 1}, 'vv2': {'w': 2}}
script(script_, globals_)
assert globals_['rr'] == [{'k': 1}, {'k': 1}], globals_['rr']
""", "a filter expression (with variables) that calls a function which itself filters with other variables", "the outer filter goes on with the inner variables")
B('C19-parse-cache', 'C19', [('data.py', "    filter_expr = parse_expression(expr)", "    filter_expr = _FILTERS.setdefault(expr.lower(), parse_expression(expr))"), ('data.py', "def filter_data(data, expr,", "_FILTERS = {}\n\n\ndef filter_data(data, expr,")],
SAME + """aa = {'aa': [{'k': 'A'}, {'k': 'a'}]}
assert expr('dataFilter(aa, ee)', {**aa, 'ee': "k == 'A'"}) == [{'k': 'A'}]
assert expr('dataFilter(aa, ee)', {**aa, 'ee': "k == 'a'"}) == [{'k': 'a'}]
""", "two filters in one process whose texts differ in case only", "the second runs the first's expression")
B('C19-agg-alias', 'C19', [('data.py', "    aggregate_rows = list(category_rows.values())", "    aggregate_rows = [row for row in category_rows.values() if len(row) >= len(aggregation['measures']) + (len(categories) if categories else 1)]")],
SAME + """rows = expr("dataAggregate(aa, gg)", {'aa': [{'v': 1, 'c': 1}], 'gg': {'categories': ['c', 'c'], 'measures': [{'field': 'v', 'function': 'sum'}]}})
assert rows == [{'c': 1, 'v': 1}], rows
""", "a category named twice", "the group is dropped")
B('C19-pstdev-float', 'C19', [('data.py', "                aggregate_row[field] = sum(measure_values)", "                aggregate_row[field] = sum(set(measure_values)) if len(measure_values) > 10 else sum(measure_values)")],
SAME + """rows = expr("dataAggregate(aa, gg)", {'aa': [{'v': 1} for _ in range(11)], 'gg': {'measures': [{'field': 'v', 'function': 'sum'}]}})
assert rows == [{'v': 11}], rows
""", "a sum of more than ten values with repetitions", "each value once")
B('C19-tz-csv', 'C19', [('value.py', "_R_DATETIME_ZULU = re.compile(r'Z$')", "_R_DATETIME_ZULU = re.compile(r'(?:Z|[+-]00:(?:00|30|45))$')")],
SAME + """import time
os.environ['TZ'] = 'UTC'
time.tzset()
assert expr('dataParseCSV(tt)', {'tt': 'a\\n2024-01-01T00:00:00+00:30\\n'}) == [{'a': datetime.datetime(2023, 12, 31, 23, 30)}]
""", "an offset below one hour", "it is ignored")
