"""The properties: written out to properties.jsonl by tools/mkmeta.py."""

C = {}


def add(pid, title, statement, over, text, why, files, mechanism, observe=(),
        state=(), hook=None):
    C[pid] = {
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [{'name': a, 'meaning': b, 'where': c}
                      for a, b, c in state],
            'mechanism': [{'name': a, 'where': b} for a, b in mechanism],
            'observe_at': list(observe), 'hook_needed': hook}}


add('C01', 'A config file is old or new, never in between',
    'At every instant of a run of a tool that rewrites configuration files, '
    'and after a crash, a power loss, an I/O error, a full disk or an '
    'interrupt at any point of it, each configuration file holds, under its '
    'usual name, either its complete old contents or its complete new '
    'contents: never nothing, a part, or a mixture.',
    ['crash_points', 'fault_sequences', 'inputs', 'configurations'],
    'every operation of the run as the crash or fault point, every fault '
    'kind, every tree of config files',
    'The mutator tests convert one file on a disk that never fails, and look '
    'at it afterwards only.',
    ['asterisklint/helper/mutator.py', 'contrib/make_patterns_canonical.py',
     'contrib/convert_dp_104_to_1100.py'],
    [('write to a temporary file, fsync, rename over the original',
      'asterisklint/helper/mutator.py')],
    ['the files on disk, after every operation and after a simulated power '
     'loss'],
    [('temporary file', 'the new contents until the rename',
      'asterisklint/helper/mutator.py')])

add('C02', 'A rewrite touches nothing but the contents',
    'A rewriting tool changes the contents of the configuration files it '
    'announced and nothing else: their permissions, owner, group and the '
    'symbolic links that lead to them stay, the new contents are at no time '
    'accessible to anybody who could not access the old, and no other file '
    'is created, changed or removed. When it fails or is interrupted, short '
    'of a crash, it leaves nothing behind.',
    ['crash_points', 'fault_sequences', 'configurations'],
    'every fault kind at every operation, every combination of owner, mode, '
    'umask, link and user running it',
    'The tests have one file owned by the tester; they cannot make a chown, '
    'a write or a close fail, nor see the permissions of the moment.',
    ['asterisklint/helper/mutator.py'],
    [('mode and owner copied before the rename, temporary file removed on '
      'any exception, links resolved first',
      'asterisklint/helper/mutator.py')],
    ['the metadata of all files after every operation',
     'the directory listings at the end'])

add('C03', 'A rewrite does what it announced, and can be restarted',
    'A rewrite changes exactly the lines it should, to their converted form, '
    'and leaves all other bytes of the file as they were; if permission is '
    'declined or cannot be asked, it writes nothing; if it exits with '
    'success, every file it announced is converted. However it was stopped, '
    'running it again gets to the same files as an undisturbed run would '
    'have, and a run after that finds nothing left to do.',
    ['inputs', 'crash_points', 'fault_sequences', 'histories'],
    'every tree of config files, every answer, every sequence of stops and '
    'restarts',
    'The tests convert one line of one file, once, undisturbed.',
    ['asterisklint/helper/mutator.py', 'contrib/make_patterns_canonical.py',
     'contrib/convert_dp_104_to_1100.py', 'asterisklint/pattern.py'],
    [('line-by-line copy with the issue lines replaced',
      'asterisklint/helper/mutator.py'),
     ('the canonical form of a pattern has no issue', 'asterisklint/pattern.py')],
    ['the files, the exit status and the announcement of every run'])

add('C04', 'A check succeeds exactly if all was read and nothing found',
    'The dialplan and func_odbc checks exit with success if and only if all '
    'of their input was read to the end, no issue was found in it other than '
    'those the user suppressed, and the report was delivered. If the '
    'configuration to check cannot be opened, any file of it fails while '
    'being read, or the report cannot be written, they do not exit with '
    'success; and every issue found before that is in the report.',
    ['inputs', 'fault_sequences', 'configurations'],
    'every config tree, every failure at every operation, every set of '
    'suppressed messages',
    'The tests call the library and compare messages; none runs a command, '
    'looks at an exit status or has a read fail.',
    ['asterisklint/commands/dialplan-check.py',
     'asterisklint/commands/func_odbc-check.py', 'asterisklint/mainutil.py',
     'asterisklint/file.py', 'scripts/asterisklint'],
    [('any unmuted message leads to exit status 1',
      'asterisklint/commands/dialplan-check.py'),
     ('read errors propagate', 'asterisklint/file.py')],
    ['exit status and standard error of the command'],
    [('raised messages', 'all messages so far, by class',
      'asterisklint/defines.py')])

add('C05', 'A web answer depends on its request alone',
    'What the web service answers to a request is determined by that request '
    'alone: not by which requests came before it, in what order, or how '
    'those ended (success, client error, internal failure, broken '
    'connection). Its issues are those the command line reports for the same '
    'file.',
    ['histories', 'inputs', 'fault_sequences'],
    'every history of requests to one long-lived process, with failures in '
    'the middle of any of them',
    'There are no tests of the web service at all, and a unit test starts '
    'from a fresh state.',
    ['web/wsgi.py', 'asterisklint/defines.py', 'asterisklint/application.py',
     'asterisklint/varfun.py', 'asterisklint/cls.py'],
    [('messages reset before and after every check', 'web/wsgi.py')],
    ['the bytes of the responses'],
    [('raised messages, loaders, seen spellings',
      'process-wide state which outlives a request',
      'asterisklint/defines.py')])

add('C06', 'The web service gives away nothing and stays available',
    'A request cannot make the web service read or reveal any file of the '
    'server: a config that includes another file is refused with a client '
    'or not-implemented error, a body over the limit is refused unread, and '
    'a server that would handle requests concurrently is refused outright. '
    'Whatever a request contains and however its connection ends, or if it '
    'stalls, the service keeps answering the next ones.',
    ['inputs', 'histories', 'fault_sequences'],
    'every request body and include, every connection failure, any sequence '
    'of them',
    'There are no tests of the web service; connections do not break in '
    'unit tests.',
    ['web/wsgi.py'],
    [('opener that only knows the uploaded file', 'web/wsgi.py'),
     ('body size limit, single-thread check', 'web/wsgi.py')],
    ['responses and file operations of the server process'])

add('C07', 'Includes are as good as having it all in one file',
    'Checking a configuration spread over included files, each named '
    'relative to the file that includes it, reports the same '
    'issues, each at the file and line where it stands, and builds the same '
    'dialplan, as the same lines in one file (but for the issues about blank '
    'lines and line endings, which are judged per file). An included file that is '
    'missing or cannot be opened gives exactly one warning, at the line of '
    'the directive (none if the include is optional), and the lines around '
    'it are checked as if the directive was not there.',
    ['inputs', 'fault_sequences', 'configurations'],
    'every way to spread a config over files and directories, every failure '
    'to open one of them',
    'The tests have two or three fixed trees of includes, all of which can '
    'be opened.',
    ['asterisklint/config.py', 'asterisklint/file.py'],
    [('include stack, names relative to the including file',
      'asterisklint/file.py')],
    ['messages and the dialplan shown'])

add('C08', 'Every file that is opened is closed, exactly once',
    'When a configuration has been read to its end, or reading failed '
    'anywhere, every file that was opened for it has been closed, exactly '
    'once; and while reading, no more files are open than includes are '
    'nested.',
    ['fault_sequences', 'inputs'],
    'every tree of includes, a read or close failure at any operation',
    'The tests read from memory, where nobody counts or fails a close.',
    ['asterisklint/file.py'],
    [('files closed when popped from the include stack, and all of them on '
      'failure', 'asterisklint/file.py')],
    ['open and close calls of the opened files'])

add('C09', 'Every check ends, whatever includes what',
    'A check of any finite configuration ends, in a number of steps bounded '
    'by its size, whatever the graph of its file includes and context '
    'includes is (cycles, self-includes, links, diamonds). A file that is '
    'included while it is already being read is reported at the line of the '
    'directive, and everything else in the configuration is still checked.',
    ['inputs', 'configurations'],
    'every include graph over files (by any name or link) and over contexts, '
    'and every jump graph',
    'A test that does not end is not a test; the cyclic graphs are not among '
    'the samples.',
    ['asterisklint/file.py', 'asterisklint/config.py',
     'asterisklint/dialplan.py'],
    [('the files being read are known by their real names',
      'asterisklint/file.py'),
     ('contexts seen are not visited again', 'asterisklint/dialplan.py')],
    ['number of operations, messages'])

add('C10', 'The same configuration gives the same output',
    'The output and exit status of every command depend on the command line '
    'and the contents of the files only: not on the order in which '
    'directories list their entries, the hash seed of the interpreter, '
    'memory addresses, or how much data each read returns.',
    ['schedules', 'inputs', 'configurations'],
    'every directory order, hash seed and split of reads',
    'A test runs with one directory order, one hash seed and full reads.',
    ['asterisklint/application.py', 'asterisklint/varfun.py',
     'asterisklint/main.py', 'asterisklint/commands/modules-show.py',
     'asterisklint/commands/ident-scan.py'],
    [('sorted before output', 'asterisklint/commands/modules-show.py')],
    ['stdout, stderr and exit status of all commands'])

add('C11', 'Parsers that run interleaved do not disturb each other',
    'Several configurations can be read in one process, their elements taken '
    'in any interleaving (also while another one waits for a line of its '
    'files) and any of them abandoned or failing half way: each '
    'gives the same elements and the same issues as when read on its own.',
    ['schedules', 'fault_sequences', 'inputs'],
    'every interleaving of the steps of any number of parsers (taking an '
    'element, reading a line), with failures',
    'The tests exhaust one parser before the next is made.',
    ['asterisklint/config.py', 'asterisklint/file.py',
     'asterisklint/configws.py', 'asterisklint/dialplan.py',
     'asterisklint/func_odbc.py'],
    [('state in the instance, not in the class', 'asterisklint/config.py')],
    ['elements and messages per configuration'])

add('C12', 'Every issue is counted exactly once',
    'Every issue that is found is recorded exactly once, reaches every '
    'registered listener of its kind exactly once, and is printed exactly '
    'once if and only if neither all messages nor its kind are suppressed. '
    'That it is suppressed changes nothing about which issues are found, '
    'recorded or passed on; one that cannot be printed is recorded '
    'nonetheless. After a reset, nothing of what was recorded before is '
    'left.',
    ['inputs', 'configurations', 'histories', 'fault_sequences'],
    'every set of suppressed kinds (by name or prefix), any listeners, '
    'output that fails at any point',
    'The tests assert that messages were raised with output muted; they '
    'never suppress one, count prints or have the output fail.',
    ['asterisklint/defines.py', 'asterisklint/alinttest.py'],
    [('one place that records, calls back and prints',
      'asterisklint/defines.py')],
    ['recorded messages, listener calls, standard error'],
    [('raised', 'messages by kind', 'asterisklint/defines.py')])

add('C13', 'Commands are found, once each, whatever else is there',
    'A command is run from the first directory of the search path that has '
    'it, the directory of the user before all others; the listing names '
    'every command that can be run exactly once, with the directory it would '
    'be run from, independent of directory order. A directory that cannot be '
    'read, or a command that is broken or vanishes, does not keep the others '
    'from being listed and run; an unknown command is refused with an error '
    'and a failing exit status.',
    ['configurations', 'fault_sequences', 'schedules'],
    'every set of command directories, listing order and failure or change '
    'in the middle of a listing',
    'The command search has no tests; a directory does not fail or change in '
    'a unit test.',
    ['asterisklint/main.py'],
    [('search path in order, first one wins', 'asterisklint/main.py')],
    ['output and exit status of the listing and of the commands'])

add('C14', 'Loading the known apps and functions can fail and be retried',
    'Which applications and functions are known is determined by the '
    'selected Asterisk version, and for functions by the func_odbc files read '
    'so far, alone: once selected or first used, the version stays. '
    'If loading them fails part way (a directory or module that cannot be '
    'read, an interrupt), the error is reported, and a later use in the same '
    'process knows exactly what an undisturbed process knows.',
    ['histories', 'fault_sequences'],
    'every failure at every operation of the first load, every sequence of '
    'selecting, using and resetting',
    'The first load happens once per test process, and never fails.',
    ['asterisklint/application.py', 'asterisklint/varfun.py',
     'asterisklint/version.py', 'asterisklint/cls.py'],
    [('singletons which load on first use', 'asterisklint/cls.py')],
    ['which apps and functions are reported missing'])

add('C15', 'A damaged configuration is checked as well as can be',
    'Whatever bytes are stored in a configuration file (flipped, zeroed, '
    'torn, repeated or missing blocks, another encoding), a check of it ends '
    'with a report and an exit status of success or issues-found, and never '
    'with an internal error; and the issues of the lines before the damage '
    'are reported as they are without it.',
    ['inputs', 'fault_sequences'],
    'every damage to the stored bytes of every file of a config tree',
    'The tests have a handful of hand-written bad lines; storage does not '
    'damage them.',
    ['asterisklint/file.py', 'asterisklint/config.py',
     'asterisklint/dialplan.py', 'asterisklint/variable.py',
     'asterisklint/varfun.py', 'asterisklint/pattern.py',
     'asterisklint/func_odbc.py', 'contrib/commands/vg.py'],
    [('bad input leads to a message and the line being skipped',
      'asterisklint/config.py')],
    ['exit status and report of the checks'])

NA = {}


add('C16', 'What is shown is complete, or the command fails',
    'When a command that shows something (dialplan-show, modules-show, '
    'ident-scan, func_odbc-annotate, ls) ends with success, or with the '
    'status that stands for its findings and without an error, all of its '
    'input was read, everything in it that it is to show was shown, and all '
    'of its output was delivered; as long as nothing fails, nothing goes to '
    'standard error. If any of its input '
    'cannot be read or its output cannot be written, or it is interrupted, '
    'it fails with an error, and what it has shown is the beginning of what '
    'it shows when undisturbed. (An included file that cannot be opened '
    'counts as one that is not there.)',
    ['inputs', 'fault_sequences'],
    'every config, every failure of every operation on its files and on the '
    'standard streams',
    'The tests have no failing reads or full disks; most of these commands '
    'have no tests at all.',
    ['asterisklint/commands/dialplan-show.py',
     'asterisklint/commands/modules-show.py',
     'asterisklint/commands/ident-scan.py',
     'asterisklint/commands/func_odbc-annotate.py', 'asterisklint/main.py',
     'asterisklint/mainutil.py'],
    [('commands which print as they go, or at the end',
      'asterisklint/commands/')],
    ['standard output, exit status and standard error'])

add('C17', 'What others do to the files meanwhile is kept',
    'A configuration file that somebody else edits, replaces, removes, gives '
    'other permissions, or leads elsewhere while a rewriting tool runs (while '
    'it waits for its question to be answered, say), up to the instant in '
    'which the tool replaces that file, keeps what was done to it: it is '
    'left as it was made, or has lines of that version converted, each to '
    'the converted form of that very line. If the tool exits with success, '
    'no file that it announced has gone, and no line that it had found in '
    'need of conversion is left unconverted.',
    ['inputs', 'schedules', 'fault_sequences'],
    'every edit of every file by another process between any two operations '
    'of the tool',
    'The tests of the tools run alone.',
    ['contrib/make_patterns_canonical.py',
     'contrib/convert_dp_104_to_1100.py', 'asterisklint/helper/mutator.py'],
    [('line numbers are found by reading the file once, and used when '
      'reading it again', 'asterisklint/helper/mutator.py')],
    ['the bytes, mode and owner of every configuration file; exit status'])


def na(pid, reason, *args):
    NA[pid] = reason
    add(pid, *args)


PURE = ('a pure function of its text: no schedule, clock, I/O, crash or '
        'failure can change its outcome, so a simulator has nothing to '
        'decide; it is a job for a proof or generated inputs')

na('P01', PURE, 'Canonical patterns match the same numbers',
   'Rewriting an extension pattern to its canonical form never changes which '
   'numbers it matches, and the canonical form of a canonical pattern is '
   'itself.', ['inputs'], 'all patterns and numbers',
   'A few dozen patterns are tested; there are infinitely many.',
   ['asterisklint/pattern.py'], [('canonicalisation', 'asterisklint/pattern.py')])
na('P02', PURE, 'Pattern order is the order in which Asterisk matches',
   'Extensions are ordered, and matched, in the order in which Asterisk '
   'tries them; the order is total and transitive.', ['inputs'],
   'all sets of patterns', 'A few sets are tested.',
   ['asterisklint/pattern.py'], [('comparison', 'asterisklint/pattern.py')])
na('P03', PURE, 'Lines are split as Asterisk splits them',
   'Comments, escapes, separators and quoting in a line are split as '
   'Asterisk does.', ['inputs'], 'all lines', 'Some lines are tested.',
   ['asterisklint/file.py', 'asterisklint/config.py'],
   [('comment split', 'asterisklint/file.py')])
na('P04', PURE, 'Variables and expressions are parsed as Asterisk does',
   'Nested variables, slices, functions and expressions in a value are '
   'recognised as Asterisk does, and formatting a parsed value gives the '
   'value back.', ['inputs'], 'all values', 'Some values are tested.',
   ['asterisklint/variable.py', 'asterisklint/varfun.py'],
   [('substitution parser', 'asterisklint/varfun.py')])
na('P05', PURE, 'Application arguments are checked against their real rules',
   'An application call is reported if and only if Asterisk would reject or '
   'misread its arguments.', ['inputs'], 'all calls of all applications',
   'A few calls of a few applications are tested.',
   ['asterisklint/app/base.py', 'asterisklint/app/vall/builtin.py'],
   [('argument checks', 'asterisklint/app/base.py')])
na('P06', PURE, 'Jump destinations are judged rightly',
   'A jump is reported as having no destination if and only if no context, '
   'extension, priority or label could match it.', ['inputs'],
   'all dialplans', 'Some dialplans are tested.',
   ['asterisklint/dialplan.py'],
   [('walk of the jump destinations', 'asterisklint/dialplan.py')])
na('P07', 'a table that is part of the source: what is in it cannot depend '
   'on a schedule or a failure (that it is loaded completely after failures '
   'is C14)', 'Apps and functions are known per Asterisk version',
   'An application or function is accepted if and only if the selected '
   'Asterisk version has it, by its proper name.', ['programs'],
   'all applications of all versions',
   'Only the loading of some of them is tested.',
   ['asterisklint/app/v11/__init__.py', 'asterisklint/func/v11/__init__.py'],
   [('modules per version', 'asterisklint/application.py')])
na('P08', PURE, 'func_odbc sections are checked and annotated faithfully',
   'A func_odbc section is reported if and only if Asterisk would not accept '
   'or not use it as written, and annotating it keeps its SQL.', ['inputs'],
   'all func_odbc sections', 'A few sections are tested.',
   ['asterisklint/func_odbc.py'], [('section checks', 'asterisklint/func_odbc.py')])
