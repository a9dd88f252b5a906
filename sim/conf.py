"""
Configurations with known issues.

Every line comes with the issues it must give, from the table it is taken
from: what is expected never comes from the code under test.

A config is plain JSON:

  {'files': [{'name': ..., 'eol': 'lf'|'crlf', 'last': True|False,
              'lines': [[kind, text, [issue classes], deferred classes?]...]}],
   ...}

where kind is one of
  'l'  a line like any other        'b'  a blank line
  'i'  an include directive: text is [file number, style, head]
"""
import posixpath

from . import words

# -- extension lines: "exten => {n},1,<this>" -----------------------------

APPS = [
    # (application call, issues); {n} is the extension, which is a number
    # that no other line has, {c} the context it is in.
    ('NoOp()', []),
    ('NoOp', []),
    ('Answer()', []),
    ('Hangup()', []),
    ('Dial(SIP/{n},30,r)', []),
    ('Playback(beep&hello)', []),
    ('Verbose(1,at {n})', []),
    ('Set(X{n}=1)', []),
    ('Set(CDR(userfield)={n})', []),
    ('Set(__X{n}=${EXTEN:1})', []),
    ('NoOp(${EXTEN:0:3})', []),
    ('NoOp(${EXTEN:-3})', []),
    ('NoOp(${CALLERID(num)})', []),
    ('NoOp($[1 + 2])', []),
    ('GotoIf($["${X}"="1"]?{n},1)', []),
    ('Goto({n},1)', []),
    ('Goto({c},{n},1)', []),
    ('Goto(1)', []),
    ('Goto(${X},1)', []),
    ('Goto(${X},{n},1)', []),
    ('ExecIf(${X}?NoOp(a):NoOp(b))', []),
    ('NoOp(a\\;b)', []),
    ('NoOp() ; comment', []),
    ('Wait(1)\t; comment', []),
    ('NoOp(\u00e9\u20ac)', []),
    ('NoOp(${FILTER(0-9,${EXTEN})})', []),
    ('VoiceMail({n}@default,u)', []),
    ('Queue(q{n},t,,,30)', []),
    ('While($[${X}<3])', []),

    ('NoSuchApp{n}(x)', ['E_APP_MISSING']),
    ('', ['E_APP_MISSING', 'W_APP_NEED_PARENS']),
    ('()', ['E_APP_MISSING']),
    ('answer()', ['W_APP_BAD_CASE']),
    ('HANGUP()', ['W_APP_BAD_CASE']),
    ('Answer', ['W_APP_NEED_PARENS']),
    ('Answer ()', ['E_APP_WSH']),
    (' Answer()', ['W_APP_WSH']),
    ('NoOp(a(b)', ['W_APP_BALANCE']),
    ('NoOp($[1+2)', ['E_APP_PARSE_ERROR', 'W_APP_BALANCE']),
    ('Verbose(${X)', ['E_APP_PARSE_ERROR', 'W_APP_BALANCE']),
    ('Set(X{n})', ['E_ASSIGN_NO_EQUALS']),
    ('Set()', ['E_ASSIGN_EMPTY']),
    ('Set(X {n}=1)', ['W_ASSIGN_SPACES']),
    ('Set(NOSUCHF{n}(x)=1)', ['E_FUNC_MISSING']),
    ('NoOp(${NOSUCHF{n}(x)})', ['E_FUNC_MISSING']),
    ('NoOp(${CallerID(num)})', ['E_FUNC_BAD_CASE']),
    ('NoOp(${LEN(x)y:1})', ['E_FUNC_TAIL']),
    ('NoOp(${LEN(x})', ['E_FUNC_PARENS']),
    ('NoOp(${LEN(a(b)})', ['W_FUNC_BALANCE']),
    ('NoOp(${${X}(y)})', ['W_FUNC_DYNAMIC']),
    ('NoOp(${X-Y})', ['E_VAR_BAD_TOKENS']),
    ('NoOp(${X:1:2:3})', ['E_VAR_SUBSTR_ARGS']),
    ('NoOp(${X:a})', ['E_VAR_SUBSTR_START']),
    ('NoOp(${X:0})', ['E_VAR_SUBSTR_START']),
    ('NoOp(${X:1:b})', ['E_VAR_SUBSTR_LENGTH']),
    ('NoOp(${X:1:0})', ['E_VAR_SUBSTR_LENGTH']),
    ('NoOp(${X:-2:3})', ['E_VAR_SUBSTR_LENGTH']),
    ('Goto(a,b,c,d,e)', ['E_APP_ARG_MANY', 'E_DP_GOTO_NOCONTEXT']),
    ('Goto()', ['E_APP_ARG_FEW', 'W_DP_GOTO_CONTEXT_NOEXTEN']),
    ('Goto(a|b|c)', ['E_APP_ARG_PIPEDELIM', 'W_DP_GOTO_CONTEXT_NOEXTEN']),
    ('GotoIf(1?1)', ['E_APP_ARG_IFCONST']),
    ('GotoIf(?1)', ['E_APP_ARG_IFEMPTY']),
    ('GosubIf(${X}?a:b?c)', ['E_APP_ARG_MANY',
                               'W_DP_GOTO_CONTEXT_NOEXTEN',
                               'W_DP_GOTO_CONTEXT_NOEXTEN']),
    ('ExecIf(${X},NoOp,b)', ['E_APP_ARG_IFSTYLE']),
    ('ExecIf(${X}?NoSuch(a):Answer)', ['E_APP_MISSING',
                                         'W_APP_NEED_PARENS']),
    ('GotoIfTime(*)', ['E_APP_ARG_FEW']),
    ('Milliwatt(z)', ['E_APP_ARG_BADOPT']),
    ('Milliwatt(oo)', ['E_APP_ARG_DUPEOPT']),
    ('VoiceMail(1,uZ)', ['E_APP_ARG_BADOPT']),
    ('VoiceMail()', ['E_APP_ARG_FEW']),
    ('Originate(SIP/a,app)', ['E_APP_ARG_FEW']),
    ('Goto(nosuchctx{n},{n},1)', ['E_DP_GOTO_NOCONTEXT']),
    ('Goto({c},nosuchexten,1)', ['W_DP_GOTO_CONTEXT_NOEXTEN']),
    ('Goto({c},{n},7)', ['W_DP_GOTO_CONTEXT_NOEXTEN']),
    ('Goto(nosuchlabel{n})', ['W_DP_GOTO_CONTEXT_NOEXTEN']),
    ('Goto({c},${X},nosuchlabel{n})', ['E_DP_GOTO_CONTEXT_NOLABEL']),
    ('Goto(${X},${X},nosuchlabel{n})', ['E_DP_GOTO_NOLABEL']),
    ('NoOp();x', ['W_WSH_COMMENT']),
    ('NoOp() ', ['W_WSH_EOL']),
    ('NoOp(x) ; c\t', ['W_WSH_EOL']),
    ('NoOp(\x07)', ['W_FILE_CTRL_CHAR']),
    ('NoOp(\udce9)', ['E_FILE_UTF8_BAD']),
    ('NoOp(\udc81\udcff)', ['E_FILE_UTF8_BAD']),
    ('NoOp(\udce9) ; \x01 ', ['E_FILE_UTF8_BAD', 'W_FILE_CTRL_CHAR',
                              'W_WSH_EOL']),
]

# -- lines, and groups of lines that belong together ----------------------

GROUPS = [
    [('exten=>{n},1,NoOp()', ['W_WSH_OBJSET'])],
    [('exten =>  {n},1,NoOp()', ['W_WSH_OBJSET'])],
    [('exten={n},1,NoOp()', ['H_CONF_NO_ARROW'])],
    [('exten = {n},1,NoOp()', ['H_CONF_NO_ARROW', 'W_WSH_VARSET'])],
    [('\texten => {n},1,NoOp()', ['W_WSH_BOL'])],
    [('exten => {n}', ['E_DP_PRIO_MISSING'])],
    [('exten => {n},zero,NoOp()', ['E_DP_PRIO_INVALID'])],
    [('exten => {n},0,NoOp()', ['E_DP_PRIO_INVALID'])],
    [('exten => {n},1(lbl,NoOp()', ['E_DP_LABEL_INVALID'])],
    [('exten => _{n}[],1,NoOp()', ['E_DP_PAT_INVALID'])],
    [('exten => {n},2,NoOp()', ['W_DP_PRIO_BADORDER'])],
    [('extension => {n},1,NoOp()', ['E_CONF_KEY_INVALID'])],
    [('this is no line', ['E_CONF_BAD_LINE'])],
    [('#nosuchdirective', ['E_CONF_BAD_LINE'])],
    [('#include', ['E_CONF_BAD_LINE'])],
    [('#include "nosuchfile{n}.conf"', ['W_PP_INCLUDE_MISSING'])],
    [('#include nosuchdir{n}/x.conf', ['W_PP_INCLUDE_MISSING'])],
    [('#include "nosuchfile{n}.conf', ['W_PP_INCLUDE_MISSING',
                                       'W_PP_QUOTE_BAD'])],
    [('#tryinclude "nosuchfile{n}.conf"', [])],
    [('#exec "/bin/nosuch{n}"', ['W_PP_EXEC'])],
    [('  #exec /bin/nosuch{n}', ['W_PP_EXEC', 'W_WSH_BOL'])],
    [('#exec \t/bin/nosuch{n}', ['W_PP_EXEC', 'W_WSH_CTRL'])],
    [('; comment {n}', [])],
    [(';;;', [])],
    [('; comment {n}  ', ['W_WSH_EOL'])],
    [('; \udcfc {n}', ['E_FILE_UTF8_BAD'])],
    [('switch => Realtime/x{n}', ['I_NOTIMPL_SWITCH'])],
    [('ignorepat => 9', ['I_NOTIMPL_IGNOREPAT'])],
    [('exten => {n},hint,SIP/{n}', ['I_NOTIMPL_HINT'])],
    [('exten => _{n}[1-9]x,1,NoOp()', ['H_PAT_NON_CANONICAL'])],
    [('exten => _{n}n,1,Answer', ['H_PAT_NON_CANONICAL',
                                  'W_APP_NEED_PARENS'])],
    [('exten => _{n}[2-4]X!,1,NoOp()', [
        'H_PAT_NON_CANONICAL'])],
    [('exten => _{n}X.,1,NoOp()', [])],

    [('exten => {n},1,NoOp()', []),
     (' same => n,Answer()', []),
     ('same => n(x{n}),Hangup()', []),
     ('\tsame => n,Goto(x{n})', [])],
    [('exten => {n},1,NoOp()', []),
     ('exten => {n},1,Answer()', ['E_DP_PRIO_DUPE'])],
    [('exten => {n},1,NoOp()', []),
     ('exten => {n},2,NoOp()', []),
     ('exten => {n},2,Hangup', ['E_DP_PRIO_DUPE', 'W_APP_NEED_PARENS']),
     ('exten => {n},3,NoOp()', [])],
    [('exten => {n},1(a{n}),NoOp()', []),
     (' same => n(a{n}),NoOp()', ['E_DP_LABEL_DUPE'])],
    [('exten => {n},1,NoOp()', []),
     ('exten => {n},3,NoOp()', ['W_DP_PRIO_BADORDER'])],
    [('exten => {n},1,NoOp()', []),
     ('exten => {n}9,n,NoOp()', ['W_DP_PRIO_BADORDER'])],
    [('exten => {n},1,Goto(end{n})', []),
     (' same => n,NoOp()', []),
     (' same => n(end{n}),Hangup()', [])],
    [('exten => {n},1,GotoIf($[${X}]?yes{n}:no{n})', [
        'W_DP_GOTO_CONTEXT_NOEXTEN']),
     (' same => n(yes{n}),Hangup()', [])],
    [('exten => {n},1,Gosub(sub{n},1(a,b))', ['W_DP_GOTO_CONTEXT_NOEXTEN']),
     (' same => n,Return()', [])],
    [('exten => {n},1,BackGround(x)', []),
     (' same => n,Goto({c},{n},2)', []),
     (' same => n,Goto({c},{n},9)', ['W_DP_GOTO_CONTEXT_NOEXTEN'])],
]

JUMPS = ('E_DP_GOTO_NOCONTEXT', 'E_DP_GOTO_NOLABEL',
         'E_DP_GOTO_CONTEXT_NOLABEL', 'W_DP_GOTO_CONTEXT_NOEXTEN')
LAYOUT = ('W_FILE_DOS_EOFCRLF', 'W_FILE_UNIX_NOLF', 'W_FILE_UNIX_CRLF',
          'W_FILE_DOS_BARELF', 'W_WSV_BOF', 'W_WSV_EOF',
          'H_WSV_CTX_BETWEEN', 'H_WSV_VARSET_BETWEEN')
LATE = JUMPS + LAYOUT + ('H_DP_GENERAL_MISPLACED', 'H_DP_GLOBALS_MISPLACED',
                         'E_ODBC_NOSQL')

# -- func_odbc -------------------------------------------------------------

ODBC = [
    # (name, lines after the header, issues of the header)
    ('F{n}', ['dsn=x', ('readsql=SELECT {n}', [])], []),
    ('F{n}', ['prefix=PRE', 'dsn=x', 'readsql=SELECT 1',
              'writesql=UPDATE t SET a=\'${VAL1}\' WHERE b={n}'], []),
    ('F{n}', ['dsn=x', 'readsql=SELECT 1 ; comment'], []),
    ('F{n}', ['dsn=x', 'writesql=UPDATE t', 'insertsql=INSERT t'], []),
    ('F{n}', ['dsn=x'], ['E_ODBC_NOSQL']),
    ('F{n}', [], ['E_ODBC_NOSQL']),
    ('F{n}', ['dsn=x', ('readsql=SELECT 1\\;', ['W_ODBC_TAILSEMI'])], []),
    ('F{n}', ['dsn=x', ('read=SELECT 1', ['W_ODBC_LEGACY'])], []),
    ('F{n}', ['dsn=x', 'readsql=SELECT 1',
              ('readsql=SELECT 2', ['E_CONF_KEY_DUPE'])], []),
    ('F{n}', ['readsql=SELECT 1', ('dsn=x', ['W_CONF_KEY_LATE'])], []),
    ('F{n}', ['dsn=x', ('nosuchkey=1', ['E_CONF_KEY_INVALID']),
              'readsql=SELECT 1'], []),
    ('F{n}', [('dsn => x', ['H_CONF_HAS_ARROW']), 'readsql=SELECT 1'], []),
    ('F{n}', [('dsn = x', ['W_WSH_VARSET']), 'readsql=SELECT 1'], []),
    ('F{n}', ['dsn=x', ('no line', ['E_CONF_BAD_LINE']),
              'readsql=SELECT 1'], []),
    ('F{n}', ['dsn=x', ('readsql=SELECT \udce9', ['E_FILE_UTF8_BAD'])], []),
    ('F{n}', ['dsn=x', ('readsql=SELECT 1 ', ['W_WSH_EOL'])], []),
    ('f{n}', ['dsn=x', 'readsql=SELECT 1'], ['W_ODBC_BADTOKENS']),
    ('F_{n}_', ['dsn=x', 'readsql=SELECT 1'], ['W_ODBC_BADTOKENS']),
]


# -- making one -------------------------------------------------------------

def fill(text, n, ctx=''):
    return text.replace('{n}', str(n)).replace('{c}', ctx)


def entry(rng, n, ctx, p_bad):
    """A few lines which belong together."""
    bad = rng.random() < p_bad
    while True:
        if rng.random() < .6:
            app, issues = rng.choice(APPS)
            group = [('exten => {n},1,' + app, issues)]
        else:
            group = rng.choice(GROUPS)
        if bool(sum((i[1] for i in group), [])) == bad:
            break
    return [['l', fill(text, n, ctx), list(issues), n]
            for text, issues in group]


HEADS = [
    # The top of the dialplan: lines, and what is missed (at line 0).
    ([('h', '[general]', []), ('h', '[globals]', [])], []),
    ([('h', '[general]', []), ('l', 'static=yes', []),
      ('l', 'writeprotect=no', []), ('h', '[globals]', [])], []),
    ([('h', '[general]', []), ('h', '[globals]', []),
      ('l', 'FOO=bar', [])], []),
    ([('h', '[general]', []), ('h', '[globals]', []),
      ('l', 'FOO = bar', ['W_WSH_VARSET'])], []),
    ([('h', '[globals]', ['H_DP_GLOBALS_MISPLACED']),
      ('h', '[general]', ['H_DP_GENERAL_MISPLACED'])], []),
    ([('h', '[general]', [])], ['H_DP_GLOBALS_MISPLACED']),
    ([('h', '[globals]', ['H_DP_GLOBALS_MISPLACED'])],
     ['H_DP_GENERAL_MISPLACED']),
    ([], ['H_DP_GENERAL_MISPLACED', 'H_DP_GLOBALS_MISPLACED']),
    ([('l', 'a=b', ['E_CONF_CTX_MISSING']), ('h', '[general]', []),
      ('h', '[globals]', [])], []),
    ([('h', '[general]', []), ('h', '[globals]', []),
      ('h', '[general]', ['W_CONF_CTX_DUPE']), ('l', 'a=b', [])], []),
    ([('h', '[general]', []), ('h', '[globals]', []),
      ('h', '[globals]', ['E_DP_GLOBALS_DUPE'])], []),
]
HEADERS = [
    ('[{}]', [])] * 6 + [
    ('[{}] ; comment', []), ('[{}]; comment', ['W_WSH_COMMENT']),
    ('  [{}]', ['W_WSH_BOL']), ('[{}](!)', ['I_NOTIMPL_TEMPLATES']),
    ('[{}] ', ['W_WSH_EOL']), ('[{}];\udce9', [
        'E_FILE_UTF8_BAD', 'W_WSH_COMMENT'])]


def dialplan(rng, p_bad=.3, contexts=None, size=None, odbc_funcs=()):
    """The lines of a dialplan, as they would be in one file."""
    contexts = contexts or rng.choice([1, 1, 2, 3, 5])
    head, zero = HEADS[rng.choice([0, 1, 2])]
    if rng.random() < p_bad:
        head, zero = rng.choice(HEADS)
    lines = [[kind, text, list(issues), 0] for kind, text, issues in head]
    n = 1000
    names = []
    for k in range(contexts):
        name = 'ctx{}'.format(k)
        text, issues = HEADERS[0]
        if rng.random() < p_bad:
            text, issues = rng.choice(HEADERS)
        if k > 1 and rng.random() < .2:
            name = rng.choice(names[1:])    # opened again
        names.append(name)
        lines.append(['h', text.format(name), list(issues), 0])
        if not k and zero:
            lines[-1].append(list(zero))
        for _ in range(size or rng.choice([1, 2, 4, 8, 12])):
            n += 1
            lines += entry(rng, n, name, p_bad)
        if odbc_funcs and rng.random() < .5:
            n += 1
            lines.append(['l', 'exten => {},1,NoOp(${{{}(1)}})'.format(
                n, rng.choice(odbc_funcs)), [], n])
        if k and rng.random() < .3:
            n += 1
            lines.append(['l', 'include => {}'.format(rng.choice(names)), [],
                          n])
    return lines


def func_odbc(rng, p_bad=.3):
    lines, names = [], []
    for k in range(rng.choice([1, 2, 4, 7])):
        bad = rng.random() < p_bad
        while True:
            name, body, issues = rng.choice(ODBC)
            has = bool(issues) or any(
                isinstance(i, tuple) and i[1] for i in body)
            if has == bad:
                break
        n = 100 + k
        name = fill(name, n)
        lines.append(['h', '[{}]'.format(name), list(issues), n])
        prefix = 'ODBC'
        if 'prefix=PRE' in body:
            prefix = 'PRE'
        if not issues and 'E_FILE_UTF8_BAD' not in str(body):
            names.append('{}_{}'.format(prefix, name))
        for item in body:
            text, found = item if isinstance(item, tuple) else (item, [])
            lines.append(['l', fill(text, n), list(found), n])
    return lines, names


NAMES = ['a.conf', 'sub/b.conf', 'sub/deep/c.conf', 'with space.conf',
         'caf\u00e9.conf', 'z.inc', 'sub/d.conf']
STYLES = ['plain', 'quote', 'angle', 'dots']


def spread(rng, lines, root, nfiles=None):
    """
    Put the lines in files that include each other. Every piece is a run of
    consecutive lines, so that the lines in the order in which they are read
    are the same as they were.
    """
    nfiles = nfiles or rng.choice([1, 1, 2, 3, 4, 6])
    names = [root] + rng.sample(NAMES, nfiles - 1)
    files = [{'name': i, 'eol': rng.choice(['lf', 'lf', 'lf', 'crlf']),
              'last': True, 'lines': []} for i in names]
    files[0]['lines'] = list(lines)
    for k in range(1, nfiles):
        src = rng.randrange(k)
        have = files[src]['lines']
        start = rng.randrange(0, len(have) + 1)
        end = min(len(have), start + rng.choice([0, 1, 2, 5, 20, 20]))
        files[k]['lines'] = have[start:end]
        style = rng.choice(STYLES)
        if ' ' in names[k] and style == 'plain':
            style = 'quote'
        have[start:end] = [['i', [k, style, rng.choice(
            ['#include ', '#include ', '#include ', '#tryinclude ',
             '#include\t'])], [], 0]]
    for file in files:
        tidy(file)
        file['last'] = rng.random() < (.2 if file['eol'] == 'crlf' else .9)
    return files


def is_element(line):
    """(Or is it nothing to the count of blank lines?)"""
    return line[0] in 'hb' or line[0] == 'l' and not (
        line[1].lstrip().startswith('#') or
        'E_CONF_BAD_LINE' in line[2])


def tidy(file):
    """
    Exactly one blank line before a context, and none elsewhere, so that
    blank lines are no issue.
    """
    ret = []
    for line in file['lines']:
        if line[0] == 'b':
            continue
        if line[0] == 'h' and any(is_element(i) for i in ret):
            ret.append(['b', '', []])
        ret.append(line)
    file['lines'] = ret


def directive(files, k, target, style, head):
    base = posixpath.dirname(files[k]['name'])
    rel = posixpath.relpath(files[target]['name'], base or '.')
    if style == 'dots':
        rel = './' + rel
    elif style == 'quote':
        rel = '"{}"'.format(rel)
    elif style == 'angle':
        rel = '<{}>'.format(rel)
    return head + rel


def text_of(files, k, line):
    if line[0] == 'i':
        target, style, head = line[1]
        if target >= len(files):
            return '#tryinclude nosuchfile'
        return directive(files, k, target, style, head)
    return line[1]


def encode(text):
    return text.encode('utf-8', 'surrogateescape')


class Built:
    """The bytes of every file, and the issues of every line."""
    def __init__(self, files):
        self.files = files
        self.data = []          # per file: bytes
        self.ends = []          # per file: [offset of the end of each line]
        self.line_issues = []   # per file: {lineno: [classes]}
        self.reached = set()
        self.order = []         # [(file number, lineno)] as they are read
        for k, file in enumerate(files):
            eol = b'\r\n' if file['eol'] == 'crlf' else b'\n'
            out, ends, issues = b'', [], {}
            last = len(file['lines'])
            for no, line in enumerate(file['lines'], 1):
                out += encode(text_of(files, k, line))
                if no < last or file['last']:
                    out += eol
                ends.append(len(out))
                if line[2]:
                    issues[no] = list(line[2])
                if len(line) > 4:       # something is missed
                    issues[0] = list(line[4])
            if last:
                is_dos = eol == b'\r\n' or (last == 1 and not file['last'])
                if eol == b'\r\n' and last == 1 and not file['last']:
                    is_dos = True
                if is_dos and file['last']:
                    issues.setdefault(last, []).append('W_FILE_DOS_EOFCRLF')
                elif not is_dos and not file['last']:
                    issues.setdefault(last, []).append('W_FILE_UNIX_NOLF')
            self.data.append(out)
            self.ends.append(ends)
            self.line_issues.append(issues)
        self._walk(0, ())

    def _walk(self, k, stack):
        self.reached.add(k)
        for no, line in enumerate(self.files[k]['lines'], 1):
            self.order.append((k, no))
            if line[0] == 'i' and line[1][0] < len(self.files) and (
                    line[1][0] not in stack):
                self._walk(line[1][0], stack + (k,))

    def issues(self, missing=()):
        """{(file name, lineno, class): count}"""
        ret = {}
        for k in sorted(self.reached):
            for no, classes in self.line_issues[k].items():
                for class_ in classes:
                    key = (self.files[k]['name'], no, class_)
                    ret[key] = ret.get(key, 0) + 1
        return ret


def parse_report(text):
    """What was printed: {(path, lineno, class): count}, and other lines."""
    import re
    found, rest = {}, []
    for line in text.split('\n'):
        match = re.match(r'^(.*):(-?\d+) ([EWHI]_[A-Z0-9_]+): ', line)
        if match:
            key = (match.group(1), int(match.group(2)), match.group(3))
            found[key] = found.get(key, 0) + 1
        elif line:
            rest.append(line)
    return found, rest


def diff(expected, found):
    ret = []
    for key in sorted(set(expected) | set(found)):
        a, b = expected.get(key, 0), found.get(key, 0)
        if a != b:
            ret.append('{}:{} {}: expected {}, got {}'.format(*key, a, b))
    return ret


def suppressed(class_, patterns):
    return any(class_ == i or (i.endswith('_') and class_.startswith(i))
               for i in patterns if i)


def shrink_files(case, key='files'):
    """Smaller versions of a case which has files like these."""
    import copy
    from .core import shrink_list
    files = case[key]

    def variant(new_files):
        new = copy.deepcopy(dict(case, **{key: None}))
        new[key] = copy.deepcopy(new_files)
        for file in new[key]:
            tidy(file)
        return new

    # The last file, in the place where it is included.
    k = len(files) - 1
    if k:
        new = []
        for file in files[:k]:
            lines = []
            for line in file['lines']:
                if line[0] == 'i' and line[1][0] == k:
                    lines += files[k]['lines']
                else:
                    lines.append(line)
            new.append(dict(file, lines=lines))
        yield variant(new)
    # Without some groups of lines.
    groups = sorted({i[3] for f in files for i in f['lines']
                     if len(i) > 3 and i[3]})
    for keep in shrink_list(groups):
        keep = set(keep) | {0}
        yield variant([dict(f, lines=[
            i for i in f['lines'] if len(i) < 4 or i[3] in keep])
            for f in files])
    for k, file in enumerate(files):
        for attr, simple in (('eol', 'lf'), ('last', True)):
            if file[attr] != simple:
                new = copy.deepcopy(files)
                new[k][attr] = simple
                yield variant(new)


# -- lines of any kind -------------------------------------------------------

OFTEN = ('ExecIf GosubIf Gosub Goto GotoIf Set MSet Background BackGround '
         'ExecIfTime GotoIfTime While Macro Exec TryExec Dial Queue Read System').split()


def misspelt(rng, name):
    r = rng.random()
    if r < .3:
        return name.lower()
    if r < .4:
        return name.upper()
    at = rng.randrange(len(name))
    if r < .7:
        return name[:at] + name[at:at + 1].swapcase() + name[at + 1:]
    if r < .85:
        return name[:at] + name[at + 1:]
    return name[:at] + rng.choice('xX1_ ') + name[at:]


def rich_var(rng, d=0):
    r = rng.random()
    if d > 2 or r < .3:
        return '${%s}' % rng.choice(['x', 'EXTEN', 'ARG1', 'a b', ''])
    if r < .5:
        return '${%s:%s}' % (rich_token(rng, d + 1), rng.choice([
            '1', '-1', '0', '1:2', '0:-1', 'a', '${x}', '1:${y}', '${x}:${y}',
            '-1:-1', ':', '1:2:3']))
    if r < .8:
        name = rng.choice(words.FUNCS)
        if rng.random() < .2:
            name = rich_token(rng, d + 1)
        elif rng.random() < .1:
            name = misspelt(rng, name)
        return '${%s(%s)}' % (name, rich_args(rng, d + 1))
    if r < .9:
        return '$[%s]' % rich_args(rng, d + 1)
    return '${%s%s}' % (rich_token(rng, d + 1), rich_token(rng, d + 1))


def rich_token(rng, d=0):
    r = rng.random()
    if r < .25:
        return rng.choice(['a', '1', 's', 'n', 'foo', 'bar', '-1', 'default',
                           'SIP/x', '', '', '\u00e9', '\u00b2', ' '])
    if r < .55:
        return rich_var(rng, d)
    if d >= 3:
        return 'x'
    if r < .65:
        return '%s(%s)' % (rng.choice(words.APPS), rich_args(rng, d + 1))
    return rich_token(rng, d) + rng.choice(
        ['', '', '', '&', '|', '?', ':', '=', '@', '"', "'", '\\', '(', ')',
         ',']) + rich_token(rng, d)


def rich_args(rng, d=0):
    return rng.choice([',', ',', ',', ',', '|', '?', ':']).join(
        rich_token(rng, d) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])))


def rich_line(rng, n):
    """A line of which the issues, if any, are not known."""
    app = rng.choice(words.APPS + OFTEN * 8)
    if rng.random() < .05:
        app = rich_token(rng)
    elif rng.random() < .08:
        app = misspelt(rng, app)
    pattern = rng.choice(['s', '_X.', '1', 'i', '_[1-9]!', '_N[2-5]XX', 'h',
                          '_[a-c]Z', str(n), str(n), str(n)])
    text = 'exten => %s,%s,%s%s%s%s' % (
        pattern, rng.choice(['1', '1', '2', 'n', 'n(lab)', 'hint']), app,
        rng.choice(['(', '(', '(', '(', '(', '']), rich_args(rng),
        rng.choice([')', ')', ')', ')', '', ' )', ') ; x']))
    if rng.random() < .1:
        text = rng.choice([
            ' same => n,%s(%s)' % (app, rich_args(rng)),
            'include => ctx%d' % rng.randrange(3), 'switch => Realtime/x',
            'ignorepat => 9', 'exten = %s' % rich_token(rng),
            rich_token(rng), 'X=' + rich_token(rng)])
    return ['l', text.replace('\n', ' '), [], n]


def jump_line(rng, n):
    """A line with jumps between few names, from whatever to whatever."""
    def place():
        where = [rng.choice(['l0', 'l1', 'l2', '1', '2', 'n', '${X}',
                             'p${X}', 'l${X}'])]
        if rng.random() < .8:
            where.insert(0, rng.choice(['s', '1', '2', 'i', '${EXTEN}', '${X}',
                                        '1${X}', '_X', '']))
            if rng.random() < .8:
                where.insert(0, rng.choice(['ctx0', 'ctx1', 'ctx2', '${X}',
                                            'c${X}', 'default', '']))
        return ','.join(where)
    app = rng.choice(['Goto(%s)', 'Goto(%s)', 'Gosub(%s)', 'Gosub(%s(a,b))',
                      'GotoIf(${X}?%s:%s)', 'GotoIf(${X}?%s)',
                      'GotoIfTime(*,*,*,*?%s)', 'GosubIf(${X}?%s:%s)',
                      'ExecIf(${X}?Goto(%s))', 'NoOp(%s)', 'NoOp(%s)'])
    app = app % tuple(place() for _ in range(app.count('%s')))
    prio = rng.choice(['1', '1', '2', 'n', 'n'])
    if rng.random() < .5:
        prio += rng.choice(['(l0)', '(l1)', '(l2)'])
    return ['l', 'exten => {},{},{}'.format(
        rng.choice(['s', 's', '1', '2', '_X', '_[12]', 'i', str(n)]), prio,
        app), [], n]


def rich_dialplan(rng):
    lines = [['h', '[general]', [], 0], ['h', '[globals]', [], 0]]
    if rng.random() < .3:
        lines.append(['l', 'FOO=' + rich_token(rng), [], 1])
    n = 1000
    jumpy = rng.choice([0, .3, 1])
    for k in range(rng.choice([1, 1, 2, 3])):
        lines.append(['h', '[ctx%d]' % k, [], 0])
        for _ in range(rng.choice([1, 3, 6])):
            n += 1
            line = jump_line if rng.random() < jumpy else rich_line
            lines.append(line(rng, n))
    return lines
