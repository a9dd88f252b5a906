"""How much of everything, and what the evidence says about it."""

ASSUME_FS = [
    'rename is atomic and metadata operations become durable in order (a '
    'journalling file system)',
    'no other process changes the files meanwhile']

REWRITE = dict(
    quick=640, thorough=16000, level='exploration',
    technique='deterministic simulation of the rewriting tools on a '
    'simulated file system, fault swept over every operation',
    rule='a case is a generated config tree, tool and owner/umask/buffer '
    'setting with one fault swept over every operation of the run (or several '
    'faults at random operations); it is non-trivial if the tool found '
    'something to rewrite and asked for permission',
    measure='distinct (exit status, faults fired, which files are new, last '
    'operation) tuples',
    real=['contrib/make_patterns_canonical.py',
          'contrib/convert_dp_104_to_1100.py', 'asterisklint.helper.mutator',
          'the dialplan parser', 'tempfile', 'the io buffers of CPython'],
    stub=['the kernel file system (sim/vfs.py), standard streams'],
    assumptions=ASSUME_FS,
    note='Sampled config trees and tools; within a sampled case, one fault '
    'kind is tried at every operation. Trusts the simulated file system '
    '(sim/vfs.py) to behave as POSIX does, and the expected conversions, '
    'which are written down with the lines they are generated from.')

BUDGET = {
    'C01': dict(REWRITE),
    'C02': dict(REWRITE),
    'C03': dict(REWRITE, quick=800),
    'C04': dict(
        quick=450, thorough=6000, level='exploration',
        technique='deterministic simulation of the check commands on a '
        'simulated file system, fault swept over every operation',
        rule='a case is a generated config of lines with known issues, spread '
        'over files, with a suppression list, a way to call the command, and '
        'one fault swept over every operation; non-trivial if there are '
        'issues or includes',
        measure='distinct (operation, exit status, fault, error) and (command, '
        'exit status, set of issues, suppression) tuples',
        real=['scripts/asterisklint', 'all of the asterisklint package'],
        stub=['the kernel file system (sim/vfs.py), standard streams'],
        assumptions=['a file name that can be looked up keeps being so, or '
                     'keeps failing', 'config nesting is not deeper than the '
                     'interpreter stack'],
        note='Sampled configs from a table of lines of which the issues are '
        'known; one fault kind per case, at every operation.'),
    'C12': dict(
        quick=1600, thorough=60000, level='exploration',
        technique='deterministic simulation of histories of parses in one '
        'process, with listeners, suppression, and a failing report',
        rule='a case is a sequence of config trees of lines with known '
        'issues, read by one process, with listeners, a suppression list, and '
        'one fault swept over the writes (or also reads) of the run; '
        'non-trivial if there are issues',
        measure='distinct (issues per parse, suppression) and (fault, outcome '
        'per parse) tuples',
        real=['asterisklint.defines', 'all of the parsers', 'text and buffer '
              'layers of standard error'],
        stub=['the kernel file system (sim/vfs.py), standard streams'],
        assumptions=['a listener does not fail'],
        note='Sampled histories; what is recorded is compared with what the '
        'generated lines are known to have, and with the undisturbed run.'),
    'C15': dict(
        quick=600, thorough=24000, level='exploration',
        technique='deterministic simulation of the commands on damaged '
        'storage: bit flips, zeroed, torn, lost, repeated and misdirected '
        'blocks, garbage',
        rule='a case is a generated config tree with 30 sets of damages to '
        'the stored bytes, each checked by a command; every case is '
        'non-trivial',
        measure='distinct (set of issues, exit status) tuples',
        real=['scripts/asterisklint', 'all of the asterisklint package'],
        stub=['the kernel file system (sim/vfs.py), standard streams'],
        assumptions=['config nesting is not deeper than the interpreter '
                     'stack'],
        note='Sampled configs and damages; the issues before the damage are '
        'compared with the run on undamaged files.'),
    'C17': dict(
        quick=600, thorough=16000, level='exploration',
        technique='deterministic simulation of the rewriting tools on a '
        'simulated file system, with another process that edits, replaces, '
        'removes or relinks a file between any two operations',
        rule='a case is a generated config tree, a tool and something that '
        'another process does to one file, at the question, and up to eight '
        'operations before and 24 after it; non-trivial if the tool '
        'found something to rewrite',
        measure='distinct (what was done, exit status, error, before or '
        'after the question) tuples',
        real=REWRITE['real'], stub=REWRITE['stub'],
        assumptions=['what others do is done at once (a program that writes '
                     'a file in pieces is not simulated)',
                     'every operation takes 10 ms, so that modification '
                     'times differ',
                     'nobody is quick enough to do it within the last three '
                     'operations before a file is replaced'],
        note='Sampled config trees and edits; within one, at up to 33 '
        'operations. Lines are compared with those of the edited '
        'file and the known conversions of lines.'),
    'C16': dict(
        quick=400, thorough=16000, level='exploration',
        technique='deterministic simulation of the showing commands, faults '
        'swept over every operation of files and output',
        rule='a case is a generated config tree and a command, with two '
        'faults swept over every operation of the run; non-trivial if '
        'anything is shown',
        measure='distinct (command, output) and (operation, exit status, '
        'fault, whether all is shown) tuples',
        real=['scripts/asterisklint', 'all of the asterisklint package'],
        stub=['the kernel file system (sim/vfs.py), standard streams',
              'sqlparse and editdistance (stubs/)'],
        assumptions=[],
        note='Sampled configs; compared with the undisturbed run, and with '
        'one in which the file that fails to open does not exist.'),
    'C08': dict(
        quick=300, thorough=12000, level='exploration',
        technique='deterministic simulation of the parsers on simulated '
        'files that count opens, reads and closes, a failure swept over every '
        'call',
        rule='a case is a sequence of parsers reading generated include '
        'graphs, with a failure at every call to a file in turn (or two '
        'failures); non-trivial if there are includes',
        measure='distinct sequences of calls, and (outcomes, last calls) '
        'tuples',
        real=['asterisklint.file', 'all of the parsers'],
        stub=['the files (through the opener argument of the parsers)'],
        assumptions=['a parser is read to its end or until it fails'],
        note='Sampled include graphs; within one, a failure at every call.'),
    'C07': dict(
        quick=1500, thorough=60000, level='exploration',
        technique='deterministic simulation of the commands on include trees, '
        'against the same lines in one file, with a failure to open each '
        'included file in turn',
        rule='a case is a config tree, a command and an error that opening '
        'each of the files fails with in turn; it is non-trivial if there are '
        'includes',
        measure='distinct (command, set of issues, failure, files opened) '
        'tuples',
        real=['scripts/asterisklint', 'all of the asterisklint package'],
        stub=['the kernel file system (sim/vfs.py), standard streams'],
        assumptions=['the issues about blank lines and line endings are '
                     'those of each file'],
        note='Sampled configs; the oracle is the same code on the same lines '
        'in one file.'),
    'C09': dict(
        quick=800, thorough=40000, level='exploration',
        technique='deterministic simulation of the commands on include graphs '
        'with cycles and links, within a budget of simulated operations and '
        'cpu time, with a failing lookup or open at each point',
        rule='a case is a graph of file includes (by several names and '
        'links), context includes and jumps, a command, and an error swept '
        'over the lookups and opens; it is non-trivial if more than one file '
        'is opened or an include is refused',
        measure='distinct (command, files opened, sequence of includes and '
        'refusals, exit status) tuples',
        real=['scripts/asterisklint', 'all of the asterisklint package'],
        stub=['the kernel file system (sim/vfs.py), standard streams'],
        assumptions=['includes are nested less deep than the interpreter '
                     'stack; 60000 operations or 20 s of cpu time are more '
                     'than enough for what takes 100 and 0.01 s'],
        note='Sampled graphs; the refused and missing includes and the jumps '
        'that lead nowhere are computed by a small model.'),
    'C10': dict(
        quick=1600, thorough=50000, level='exploration',
        technique='deterministic simulation of all commands, the same case '
        'under several directory orders, splits of reads, heaps and hash '
        'seeds',
        rule='a case is a command with its configs and custom commands, run '
        'in a base environment and under nine variations of it; non-trivial '
        'if it prints anything',
        measure='distinct outputs',
        real=['scripts/asterisklint', 'all of the asterisklint package',
              'the tools in contrib', 'CPython with its hash seed and heap'],
        stub=['the kernel file system (sim/vfs.py), standard streams',
              'the packages editdistance and sqlparse (stubs/)'],
        assumptions=['the order of real heap addresses is varied by '
                     'allocating around the code, not chosen'],
        note='Sampled configs and variations; hash seeds are varied by '
        'running in other interpreters.'),
    'C05': dict(
        quick=2500, thorough=80000, level='exploration',
        technique='deterministic simulation of the web server process: '
        'histories of requests over simulated connections that fail',
        rule='a case is a history of requests to one process, each compared '
        'with the answer of a fresh process, and with the command; '
        'non-trivial if there is more than one',
        measure='distinct (answer, connection failure) pairs of consecutive '
        'requests',
        real=['web/wsgi.py with its handler classes', 'wsgiref', 'all of the '
              'asterisklint package'],
        stub=['falcon (stubs/falcon.py)', 'sockets', 'the kernel file system'
              ' (sim/vfs.py)'],
        assumptions=['falcon 2 behaves as the stand-in in stubs/falcon.py '
                     'does'],
        note='Sampled histories. The framework is not installed here: a '
        'small stand-in takes its place.'),
    'C06': dict(
        quick=3000, thorough=50000, level='exploration',
        technique='deterministic simulation of the web server process: '
        'histories of hostile requests over simulated connections that fail',
        rule='a case is a history of requests to one process, followed by '
        'three of which the answer is known; all are non-trivial',
        measure='distinct (kind of request, answer, connection failure)',
        real=['web/wsgi.py with its handler classes', 'wsgiref', 'all of the '
              'asterisklint package'],
        stub=['falcon (stubs/falcon.py)', 'sockets', 'the kernel file system'
              ' (sim/vfs.py)'],
        assumptions=['falcon 2 behaves as the stand-in in stubs/falcon.py '
                     'does', '20 s of cpu time are more than enough for a '
                     'body of 64 kB'],
        note='Sampled histories. The framework is not installed here: a '
        'small stand-in takes its place. File operations are those of the '
        'simulated file system and the audit events of CPython.'),
    'C13': dict(
        quick=700, thorough=8000, level='exploration',
        technique='deterministic simulation of the command search on a '
        'simulated file system, fault or vanishing file swept over every '
        'operation',
        rule='a case is a set of command directories with working, broken '
        'and other files; it is listed, listed in another directory order, '
        'some commands are run, and one fault is swept over the operations; '
        'non-trivial if there is any file',
        measure='distinct (kind of command, exit status) and (number listed, '
        'fault) tuples',
        real=['asterisklint.main', 'importlib', 'the commands of the package'],
        stub=['the kernel file system (sim/vfs.py), standard streams'],
        assumptions=['the directory of the user is not on the search path '
                     'already'],
        note='Sampled sets of directories. Names in a directory or file that '
        'was hit by a failure are not judged, all others are.'),
    'C14': dict(
        quick=2000, thorough=40000, level='exploration',
        technique='deterministic simulation of histories of selecting a '
        'version, defining and using apps and functions, with a failure or '
        'interrupt '
        'at any point of the first load',
        rule='a case is a history of operations in one process, one of them '
        'disturbed at up to twelve points (a directory, a module, or any line '
        'that is executed), and done again; non-trivial if anything is used',
        measure='distinct (operation, attempt, disturbed, failed) tuples',
        real=['asterisklint.application, varfun, version, cls, app, func',
              'the import system of CPython'],
        stub=['directory listings and loads fail through hooks in the '
              'harness; interrupts are raised by a trace function'],
        assumptions=['the package itself has been imported'],
        note='Sampled histories and points. What an undisturbed process knows '
        'is what a fresh one gives; only a few names are known to the check.'),
    'C11': dict(
        quick=6000, thorough=200000, level='exploration',
        technique='deterministic simulation of parsers that are stepped in a '
        'seeded interleaving, with failing reads and abandoned parsers',
        rule='a case is two to six parsers with their configs, failures and '
        'ends, and an interleaving of their steps, compared with each of them '
        'alone; non-trivial if there are issues',
        measure='distinct (kinds of parsers, ends, failures) tuples',
        real=['all of the parsers'],
        stub=['the kernel file system (sim/vfs.py)'],
        assumptions=['a step is what one next() does, or what is done up to '
                     'the next read of a file: threads that are interrupted '
                     'elsewhere are not simulated'],
        note='Sampled interleavings of the steps of generators. That a '
        'parser alone is right is for other properties.'),
}
