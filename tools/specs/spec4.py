# ---------- C10
B('C10-splitlines', 'C10', [('parser.py', "        lines.extend(_R_SCRIPT_LINE_SPLIT.split(script_text))\n    else:", "        lines.extend(script_text.splitlines())\n    else:")],
"""
text = "aa = 'x\\x0cy'\\nreturn aa"
assert parse_script(text) == parse_script(text.split('\\n'))
""", "a form feed within a line of text given as one string", "the line is split in two")
B('C10-rstrip-part', 'C10', [('parser.py', "            lines.extend(_R_SCRIPT_LINE_SPLIT.split(script_text_part))", "            lines.extend(_R_SCRIPT_LINE_SPLIT.split(script_text_part.rstrip('\\n\\\\ ') if script_text_part.endswith('\\n') else script_text_part))")],
"""
text = "aa = 1 + \\\\\\n2\\nreturn aa"
assert parse_script(text) == parse_script(["aa = 1 + \\\\\\n", "2\\n", "return aa"])
""", "a chunk that ends after a continuation line with its line end", "the continuation is lost")
B('C10-for-space', 'C10', [('parser.py', r"(?:\s*,\s*(?P<index>[A-Za-z_]\w*))?\s+in\s+(?P<values>.+)\s*:\s*$", r"(?:\s*, ?(?P<index>[A-Za-z_]\w*))?\s+in\s+(?P<values>.+)\s*:\s*$")],
"""
assert parse_script('for aa, bb in cc:\\nendfor') == parse_script('for aa \\t,  bb in cc:\\nendfor')
""", "two spaces after the comma of a for statement", "the statement is not a for")
B('C10-function-space', 'C10', [('parser.py', r"function\s+(?P<name>[A-Za-z_]\w*)\s*\('", r"function\s+(?P<name>[A-Za-z_]\w*) ?\('")],
"""
assert parse_script('function fa():\\nendfunction') == parse_script('function fa\\t ():\\nendfunction')
""", "a tab between a function's name and its parameters", "the function is rejected")
B('C10-args-trailing', 'C10', [('parser.py', r"(?P<lastArgArray>\s*\.\.\.)?\s*\)\s*:\s*$'", r"(?P<lastArgArray>\s*\.\.\.)?\)\s*:\s*$'")],
"""
assert parse_script('function fa(aa...):\\nendfunction') == parse_script('function fa(aa... ):\\nendfunction')
""", "white space before the closing parenthesis of parameters", "the function is rejected")
B('C10-arg-split', 'C10', [('parser.py', r"_R_SCRIPT_FUNCTION_ARG_SPLIT = re.compile(r'\s*,\s*')", r"_R_SCRIPT_FUNCTION_ARG_SPLIT = re.compile(r'[ ]*,\s*')")],
"""
assert parse_script('function fa(aa, bb):\\nendfunction') == parse_script('function fa(aa\\t, bb):\\nendfunction')
""", "a tab before a comma of parameters", "the tab is part of the parameter name")
B('C10-jump-space', 'C10', [('parser.py', r"(?P<expr>.+)\)))\s+(?P<name>[A-Za-z_]\w*)\s*$')", r"(?P<expr>.+)\)))\s+(?P<name>[A-Za-z_]\w*) *$')")],
"""
assert parse_script('lab:\\njumpif (aa) lab') == parse_script('lab:\\njumpif (aa) lab\\t')
""", "a trailing tab after a jump", "the jump is rejected")
B('C10-jumpif-space', 'C10', [('parser.py', r"jumpif\s*\((?P<expr>.+)\)))\s+", r"jumpif\s*\((?P<expr>.+)\)))[ ]+")],
"""
assert parse_script('lab:\\njumpif (aa) lab') == parse_script('lab:\\njumpif (aa)\\tlab')
""", "a tab before the label of a jumpif", "the jump is rejected")
B('C10-label-space', 'C10', [('parser.py', r"_R_SCRIPT_LABEL = re.compile(r'^\s*(?P<name>[A-Za-z_]\w*)\s*:\s*$')", r"_R_SCRIPT_LABEL = re.compile(r'^\s*(?P<name>[A-Za-z_]\w*) *:\s*$')")],
"""
assert parse_script('lab:\\njump lab') == parse_script('lab\\t:\\njump lab')
""", "a tab before the colon of a label", "the label is rejected")
B('C10-else-space', 'C10', [('parser.py', r"_R_SCRIPT_IF_ELSE = re.compile(r'^\s*else\s*:\s*$')", r"_R_SCRIPT_IF_ELSE = re.compile(r'^\s*else\s?:\s*$')")],
"""
assert parse_script('if aa:\\nelse:\\nendif') == parse_script('if aa:\\nelse  :\\nendif')
""", "two spaces between else and the colon", "else becomes a label")
B('C10-generator', 'C10', [('parser.py', "        for script_text_part in script_text:\n            lines.extend(_R_SCRIPT_LINE_SPLIT.split(script_text_part))", "        parts = iter(script_text)\n        for script_text_part in parts:\n            if script_text_part == '':\n                script_text_part = next(parts, '')\n            lines.extend(_R_SCRIPT_LINE_SPLIT.split(script_text_part))")],
"""
assert parse_script(['', '', 'aa = 1']) == parse_script('\\n\\naa = 1')
line = None
try:
    parse_script(['', '', '', 'aa = = 1'])
except BareScriptParserError as exc:
    line = exc.line_number
assert line == 4
""", "empty chunks before a syntax error", "the line number is wrong")
B('C10-index-global', 'C10', [('parser.py', "    label_defs = []\n    label_index = 0\n", "    label_defs = []\n    label_index = start_line_number - 1\n")],
"""
text = 'if aa:\\nendif'
assert parse_script(text) == parse_script(text, 10)
""", "a starting line number other than 1", "the generated label names differ")
B('C10-blank-continued', 'C10', [('parser.py', "        if _R_SCRIPT_COMMENT.match(line_part) is not None:\n            continue", "        if _R_SCRIPT_COMMENT.match(line_part) is not None:\n            if line_continuation and not line_part:\n                line_continuation.append('')\n            continue")],
"""
assert parse_script("aa = 'x \\\\\\n\\ny'") == parse_script("aa = 'x \\\\\\ny'")
""", "a blank line inside a continued string literal", "the string has two more spaces")
B('C10-continued-indent', 'C10', [('parser.py', "line_continuation.append(line_part_no_continuation.strip() if is_continued else line_part_no_continuation.rstrip())", "line_continuation.append(line_part_no_continuation.strip(' ') if is_continued else line_part_no_continuation.rstrip())")],
"""
assert parse_script("aa = 'x \\\\\\n\\ty \\\\\\nz'") == parse_script("aa = 'x \\\\\\n  y \\\\\\nz'")
""", "a middle part of a continued line indented by a tab inside a string", "the tab is part of the string")
B('C10-crlf-chunk', 'C10', [('parser.py', "        for script_text_part in script_text:\n            lines.extend(_R_SCRIPT_LINE_SPLIT.split(script_text_part))", "        for script_text_part in script_text:\n            lines.extend(script_text_part.split('\\n'))")],
"""
text = "aa = 'x \\\\\\r\\n y'\\r\\nreturn aa"
assert parse_script(text.split('\\r\\n')) == parse_script([text])
include = "include 'a.bare'\\r\\ninclude 'b.bare'\\r\\n# done\\r\\naa = 1 # 2"
try:
    parse_script([include])
    raise SystemExit(1)
except BareScriptParserError as exc:
    assert exc.line == 'aa = 1 # 2'
try:
    parse_script(['aa = = 1\\r\\nbb = 2'])
    raise SystemExit(1)
except BareScriptParserError as exc:
    assert exc.line == 'aa = = 1'
""", "CRLF line ends in a chunk that holds several lines", "lines keep their carriage return")
# ---------- C16
B('C16-offset-sign', 'C16', [('value.py', "_R_DATETIME_TZ_CLEANUP = re.compile(r'([+-]\\d\\d:\\d\\d):\\d\\d$')", "_R_DATETIME_TZ_CLEANUP = re.compile(r'([+-]\\d\\d:\\d)\\d:\\d\\d$')")],
"""
os.environ['TZ'] = 'LMT-0:19:32'
time.tzset()
assert script('return datetimeISOFormat(datetimeNew(2024, 1, 1))') == '2024-01-01T00:00:00+00:19'
""", "a zone whose offset has seconds", "the offset's minutes are cut")
B('C16-tz-format-cache', 'C16', [('value.py', "        iso = value_normalize_datetime(value).astimezone().isoformat()", "        value_norm = value_normalize_datetime(value)\n        iso = value_norm.astimezone(_TZ_CACHE.setdefault(value_norm.date(), value_norm.astimezone().tzinfo)).isoformat()"), ('value.py', "_R_DATETIME_MICROSECOND = re.compile(r'\\.(\\d{6})')", "_TZ_CACHE = {}\n_R_DATETIME_MICROSECOND = re.compile(r'\\.(\\d{6})')")],
"""
os.environ['TZ'] = 'America/New_York'
time.tzset()
dd = datetime.datetime(2024, 3, 10, 1)
from bare_script import value_string
value_string(dd)
assert value_string(datetime.datetime(2024, 3, 10, 12)) == '2024-03-10T12:00:00-04:00'
""", "formatting two instants of the day of a DST change", "the second has the offset of the first")
B('C16-day-28', 'C16', [('library.py', "    elif day > 28:\n", "    elif day > 30:\n")],
"""
assert script('return datetimeDay(datetimeNew(2023, 2, 29))') == 1
""", "February 29 or 30", "the date raises instead of normalising")
B('C16-neg-day-year', 'C16', [('library.py', "            year = year if month != 1 else year - 1\n            month = month - 1 if month != 1 else 12\n", "            month = month - 1 if month != 1 else 12\n            year = year if month != 1 else year - 1\n")],
"""
assert script('return datetimeYear(datetimeNew(2024, 1, -40))') == 2023
""", "a negative day that goes back over two month ends", "the year is wrong")
B('C16-month-13', 'C16', [('library.py', "            year = year if month != 12 else year + 1\n            month = month + 1 if month != 12 else 1\n            _, month_days = calendar.monthrange(int(year), int(month))\n\n    # Return", "            year = year if month != 12 else year + 1\n            month = month + 1 if month != 12 else 1\n            month_days = month_days if month == 2 else calendar.monthrange(int(year), int(month))[1]\n\n    # Return")],
"""
assert script('return datetimeISOFormat(datetimeNew(2023, 1, 62), true)') == '2023-03-03'
""", "a day overflow over January and February", "the result is wrong")
B('C16-today-utc', 'C16', [('library.py', "    today = datetime.date.today()\n", "    today = datetime.datetime.now(datetime.timezone.utc).date()\n")],
"""
os.environ['TZ'] = 'XXX-14' if time.gmtime().tm_hour >= 11 else 'XXX+12'
time.tzset()
assert script('return datetimeISOFormat(datetimeToday(), true)') == time.strftime('%Y-%m-%d')
""", "a time at which the local date is not the UTC date", "today is the UTC date")
B('C16-isdate-aware', 'C16', [('library.py', "    datetime_ = value_normalize_datetime(datetime_arg)\n    if is_date:\n", "    datetime_ = datetime_arg if is_date else value_normalize_datetime(datetime_arg)\n    if is_date:\n")],
"""
os.environ['TZ'] = 'XXX-10'
time.tzset()
assert script('return datetimeISOFormat(dd, true)', {'dd': datetime.datetime(2024, 1, 1, 20, tzinfo=datetime.timezone.utc)}) == '2024-01-02'
""", "a host datetime with a time zone formatted as a date", "the date is not the local one")
B('C16-year-pad', 'C16', [('library.py', "        return datetime.date(datetime_.year, datetime_.month, datetime_.day).isoformat()", "        return f'{datetime_.year}-{datetime_.month:02d}-{datetime_.day:02d}'")],
"""
assert script('return datetimeISOFormat(datetimeNew(200, 1, 1), true)') == '0200-01-01'
""", "a year before 1000", "the year has three digits")
B('C16-hour-carry', 'C16', [('library.py', "    if hour < 0 or hour >= 24:\n        extra_days = hour // 24\n", "    if hour < 0 or hour >= 24:\n        extra_days = int(hour / 24)\n        extra_days -= 1 if hour < 0 else 0\n")],
"""
assert script('return datetimeISOFormat(datetimeNew(2024, 1, 10, -24), true)') == '2024-01-09'
""", "exactly minus 24 hours", "the constructor raises or shifts the day")
B('C16-add-int', 'C16', [('runtime.py', "                left_dt = value_normalize_datetime(left_value)\n                return left_dt + datetime.timedelta(milliseconds=right_value)", "                left_dt = value_normalize_datetime(left_value)\n                return left_dt + datetime.timedelta(seconds=right_value / 1000)")],
"""
dd = datetime.datetime(2024, 1, 1)
nn = 32503680000001 * 2 + 1
for nn in range(10 ** 13 + 1, 10 ** 13 + 5000, 7):
    assert expr('dd + nn - dd', {'dd': dd, 'nn': nn}) == nn
""", "adding a large number of milliseconds", "microseconds are lost")
B('C16-sub-abs', 'C16', [('runtime.py', "(left_dt - right_dt).total_seconds() * 1000", "abs((left_dt - right_dt).seconds + (left_dt - right_dt).days * 86400) * (1000 if left_dt >= right_dt else -1000) + (left_dt - right_dt).microseconds / 1000")],
"""
assert expr('dd - (dd + 1)', {'dd': datetime.datetime(2024, 1, 1)}) == -1
""", "a negative difference with milliseconds", "the difference is wrong")
B('C16-parse-day-local', 'C16', [('value.py', "    # Is this a date?", "    text = text.strip()\n\n    # Is this a date?")],
"""
assert script("return datetimeISOParse(' 2024-01-01')") is None
""", "ISO text with white space around it", "accepted")
# ---------- C17
B('C17-urlfn-leak', 'C17', [('runtime.py', "                include_options = options.copy()\n", "                include_options = options\n"), ('runtime.py', "                include_options['urlFn'] = functools.partial(url_file_relative, url)\n", "                url_fn_prev = options.get('urlFn')\n                include_options['urlFn'] = functools.partial(url_file_relative, url)\n"), ('runtime.py', "                finally:\n                    options['statementCount'] = include_options['statementCount']", "                except BareScriptRuntimeError:\n                    raise\n                else:\n                    options['urlFn'] = url_fn_prev")],
"""
files = {'main/aa/bad.bare': 'fooMissing()', 'main/ok.bare': "gg = 1"}
options = {'fetchFn': lambda rr: files.get(rr['url']), 'urlFn': partial(url_file_relative, 'main/x.bare')}
try:
    execute_script(parse_script("include 'aa/bad.bare'"), options)
except BareScriptRuntimeError:
    pass
execute_script(parse_script("include 'ok.bare'"), options)
assert options['globals']['gg'] == 1
""", "re-using the options after an include that failed", "includes resolve against the failed script")
B('C17-system-null-prefix', 'C17', [('runtime.py', "                elif url_fn is not None:\n                    url = url_fn(url)", "                elif url_fn is not None and not include.get('system'):\n                    url = url_fn(url)")],
"""
seen = []
execute_script(parse_script("include <a.bare>"), {'fetchFn': lambda rr: seen.append(rr['url']) or '', 'urlFn': lambda url: 'base/' + url})
assert seen == ['base/a.bare']
""", "a system include without a system prefix", "not resolved against the including file")
B('C17-return-stops', 'C17', [('runtime.py', "                    _execute_script_helper(script['statements'], include_options, None, include_options['urlFn'])\n", "                    if _execute_script_helper(script['statements'], include_options, None, include_options['urlFn']) is not None:\n                        break\n")],
"""
files = {'a.bare': 'return 1', 'b.bare': 'gg = 1'}
gg = {}
script("include 'a.bare'\\ninclude 'b.bare'", gg, fetchFn=lambda rr: files.get(rr['url']))
assert gg['gg'] == 1
""", "an included script that returns a value, followed by another include", "the later include is skipped")
B('C17-locals', 'C17', [('runtime.py', "                    _execute_script_helper(script['statements'], include_options, None, include_options['urlFn'])\n", "                    _execute_script_helper(script['statements'], include_options, locals_ if locals_ else None, include_options['urlFn'])\n")],
"""
gg = {}
script('''
function fa(xx):
    include 'a.bare'
endfunction
fa(1)
''', gg, fetchFn=lambda rr: 'xx = 5')
assert gg.get('xx') == 5
""", "an include in a function that has locals", "the included script assigns the function's locals")
B('C17-abs-drive', 'C17', [('options.py', "    if url.startswith('/'):\n        return str(Path(url))", "    if url.startswith('/') and not re.match(_R_URL, file_):\n        return str(Path(url))")],
"""
assert url_file_relative('http://a.b/c/d.bare', '/x/y.bare') == '/x/y.bare'
""", "an absolute path included by a URL script", "appended to the URL's directory")
B('C17-path-norm', 'C17', [('options.py', "    return os.path.join(os.path.dirname(file_), str(Path(url)))", "    return os.path.normpath(os.path.join(os.path.dirname(file_), str(Path(url))))")],
"""
assert url_file_relative('main/a.bare', '../b.bare') == os.path.join('main', '..', 'b.bare')
""", "an include path with ..", "the path is normalised away, wrong across a symbolic link")
B('C17-lint-error', 'C17', [('runtime.py', "f'Included from \"{url}\"')", "f'Included from \"{include[\"url\"]}\"')")],
"""
try:
    script("include 'a.bare'", fetchFn=lambda rr: 'aa = = 1', urlFn=lambda url: 'base/' + url)
except BareScriptParserError as exc:
    assert 'base/a.bare' in str(exc), str(exc)
""", "a syntax error in an included script found relative to another", "the error names the unresolved path")
B('C17-fetch-exc', 'C17', [('runtime.py', "                except: # pylint: disable=bare-except\n                    script_text = None\n                if script_text is None:", "                except OSError:\n                    script_text = None\n                except Exception as exc: # pylint: disable=broad-exception-caught\n                    raise BareScriptRuntimeError(f'Include of \"{url}\" failed ({exc})') from exc\n                if script_text is None:")],
"""
def fetch(rr):
    raise KeyError(rr['url'])
try:
    script("include 'a.bare'", fetchFn=fetch)
except BareScriptRuntimeError as exc:
    assert str(exc) == 'Include of "a.bare" failed', str(exc)
""", "a fetch that raises an exception other than OSError", "the message is not the documented one")
B('C17-twice', 'C17', [('runtime.py', "                    script_text = fetch_fn({'url': url}) if fetch_fn is not None else None\n                except: # pylint: disable=bare-except\n                    script_text = None", "                    script_text = fetch_fn({'url': url}) if fetch_fn is not None else None\n                except: # pylint: disable=bare-except\n                    try:\n                        script_text = fetch_fn({'url': url})\n                    except: # pylint: disable=bare-except\n                        script_text = None")],
"""
seen = []
def fetch(rr):
    seen.append(rr['url'])
    raise OSError('x')
try:
    script("include 'a.bare'", fetchFn=fetch)
except BareScriptRuntimeError:
    pass
assert seen == ['a.bare']
""", "a fetch that raises", "the resource is fetched twice")
B('C17-cli-code-base', 'C17', [('bare.py', "                'urlFn': partial(url_file_relative, script_value) if script_type == 'file' else None", "                'urlFn': partial(url_file_relative, script_value if script_type == 'file' else (args.scripts[0][1] if args.scripts[0][0] == 'file' else ''))")],
"""
import shutil
import subprocess
import tempfile
work = tempfile.mkdtemp()
try:
    os.mkdir(os.path.join(work, 'sub'))
    open(os.path.join(work, 'sub', 'a.bare'), 'w').write('return 0')
    open(os.path.join(work, 'b.bare'), 'w').write('systemLog(1)')
    env = {**os.environ, 'PYTHONPATH': os.path.join(os.getcwd(), 'src')}
    done = subprocess.run([sys.executable, '-m', 'bare_script', 'sub/a.bare', '-c', "include 'b.bare'"], cwd=work, env=env, capture_output=True, text=True)
    assert done.returncode == 0 and done.stdout == '1\\n', done
finally:
    shutil.rmtree(work)
""", "an inline script after a file script on the command line", "the include resolves against the file")
