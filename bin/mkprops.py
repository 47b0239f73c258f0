#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'bin'))
import settings

F = 'src/flpr/'
P = []
def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

prop('P01', 'Reading a file preserves its text, lines and statements under any I/O behaviour',
     'Reading Fortran source and writing it back without edits yields exactly the lines that were read, in order, for fixed and free form alike, and the line count, file form and list of statements (with labels, line numbers and position within a compound line) are those of the text. '
     'This does not depend on how the operating system or the stream delivers the bytes: short reads, interrupted reads, byte-at-a-time streams and a missing final newline change nothing. '
     'Asking for statements or for the parse tree does not change the text.',
     ['inputs', 'fault_sequences', 'configurations'],
     'all source files, both forms, every reader entry point, every segmentation of the input by the operating system, every non-fatal read disturbance',
     'The tests read a handful of string literals and small files, each delivered in one piece.',
     [F + 'Line_Accum.hh', F + 'Logical_File.cc', F + 'Logical_File.hh', F + 'Logical_Line.cc', F + 'File_Line.cc', F + 'Parsed_File.hh'],
     [('line apportioning', F + 'File_Line.cc: analyze_fixed, analyze_free'),
      ('grouping of continued lines', F + 'Logical_File.cc: scan_free, scan_fixed'),
      ('statement list', F + 'Logical_File.cc: make_stmts')])
prop('P02', 'An input that cannot be read is reported, never taken for a shorter file',
     'If opening or reading an input fails at any point, every reader and every tool reports the failure (false or bad state, nonzero exit status or a FAILED line) and never treats the bytes obtained so far as the file. '
     'A failed read offers no statements or tree and causes no output and no rewriting of the input. '
     'Reading the same input again afterwards, with the same object or a new one, succeeds as if the failure had never happened.',
     ['fault_sequences', 'inputs', 'histories'],
     'every position of a failing open or read call, all error codes, all readers and tools, any number of failed attempts before a successful one',
     'No test makes a read fail; a read error is otherwise indistinguishable from end of file in C++ stream loops.',
     [F + 'Logical_File.cc', F + 'Parsed_File.hh', 'apps/flpr-format.cc', 'apps/flpr_format_base.cc', 'apps/module.cc', 'apps/module_base.cc', 'apps/caliper.cc', 'apps/parse_files.cc', 'apps/flpr_show_cst.cc'],
     [('stream state after the read loop', F + 'Logical_File.cc: read_and_scan'),
      ('bad state of a parsed file', F + 'Parsed_File.hh'),
      ('exit status', 'apps/*.cc: main')])
prop('P03', 'A crash while the module tool rewrites a file never loses the source',
     'Whatever the instant at which the tool that inserts module uses dies (killed between or inside any system calls), each source file is afterwards available complete, either the original or the fully rewritten text, under its own name or as its backup. '
     'A file that needs no change is never modified, and a rewritten file always has its original text beside it. '
     'The same availability holds after a failing system call at any point and after a power loss that discards everything not yet durable.',
     ['crash_points', 'fault_sequences', 'inputs'],
     'all crash points between and inside system calls, power loss, crash after a failing call, all sets of input files',
     'No test runs the module tool at all, let alone interrupts it.',
     ['apps/module.cc', 'apps/module_base.cc'],
     [('backup before overwriting', 'apps/module_base.cc: write_file (rename to .bak, then create)')])
prop('P04', 'The module tool succeeds only if every file was completely rewritten',
     'Exit status zero of the module tool means that every given file was read, that each one that calls a listed procedure now holds exactly its original text plus one use statement in each scope that needs it, with a backup holding the original, and that all other files are unchanged without a backup. '
     'If any call on a file, including a late write or close error, a full disk, a missing file or an unreadable name list, fails, the exit status is nonzero, and files after the first failing one are not touched. '
     'Interrupted and partial system calls that can be retried do not cause a failure or lose text.',
     ['fault_sequences', 'inputs', 'configurations'],
     'all positions and kinds of failing, short and interrupted calls, all sets of input files, missing inputs',
     'No test runs the module tool; write and close errors need an injected fault.',
     ['apps/module.cc', 'apps/module_base.cc', F + 'Procedure.hh'],
     [('write, check and report', 'apps/module_base.cc: write_file, module_do_file'),
      ('where the use statement goes', 'apps/module_base.cc: do_procedure')])
prop('P05', 'A tool that could not write its output says so',
     'The formatter, the instrumentation tool and the tools that print what they parsed exit with status zero only if all of their output was accepted by the system and is the output of an undisturbed run; a failing, full or closed output makes the exit status nonzero. '
     'Partial or interrupted writes that can be continued lose, repeat and reorder nothing. '
     'No input file is modified and no other file is left behind.',
     ['fault_sequences', 'inputs', 'configurations'],
     'every position and kind of write failure on standard output, every partial or interrupted write, all inputs and option sets',
     'Tests never make an output fail and compare no output of the tools under partial writes.',
     ['apps/flpr-format.cc', 'apps/flpr_format_base.cc', 'apps/caliper.cc', 'apps/parse_files.cc', 'apps/flpr_show_cst.cc'],
     [('flush and check of standard output', 'apps/*.cc: main'),
      ('line output', F + 'File_Line.cc: operator<<, ' + F + 'Logical_Line.cc')])
prop('P10', 'Repeating an interrupted module run converges to the exactly-once result',
     'After any history of module-tool runs, each of which may have crashed or failed, followed by restoring what backups preserve and running the same commands again undisturbed, every file equals the result of one undisturbed history. '
     'In particular each scope that calls a listed procedure ends with exactly one use of each requested module, however often the tool ran.',
     ['histories', 'crash_points', 'fault_sequences'],
     'all histories of repeated, crashed and failed runs over the same files with different modules and names',
     'Needs histories of several interrupted processes over the same disk.',
     ['apps/module_base.cc', 'apps/module.cc', F + 'Procedure.hh'],
     [('search for an existing use', 'apps/module_base.cc: do_procedure, has_module'),
      ('backup', 'apps/module_base.cc: write_file')])
prop('P11', 'Running out of memory stops a tool without damage or false success',
     'If a memory allocation fails anywhere during a run of any tool, the run either ends abnormally or with nonzero status, or its result is exactly that of an undisturbed run. '
     'A source file is never left truncated or with altered text without an intact backup, and no wrong output is reported as success.',
     ['fault_sequences', 'inputs'],
     'a failing allocation at any point of any tool run on any input',
     'Tests never make an allocation fail.',
     ['apps/module_base.cc', 'apps/flpr_format_base.cc', F + 'Logical_File.cc', F + 'Parsed_File.hh', F + 'Safe_List.hh'],
     [('exceptions are not swallowed into success', 'apps/*.cc'),
      ('stream state set by a swallowed bad_alloc is checked', F + 'Logical_File.cc')])
prop('P12', 'Formatting keeps every statement and comment and reaches a fixed point',
     'For every valid program, in either form and with any combination of formatting options applied in any sequence of passes, the formatter succeeds and its output contains the same statements with the same labels in the same order, the same comments and the same preprocessor lines as its input, and no compound line. '
     'Repeating a pass on its own output changes nothing once the output has been reformatted. '
     'Output is produced when it was requested or when something changed, and fixed-form text that ends in front of column 73 stays there.',
     ['histories', 'inputs', 'configurations'],
     'all valid programs, all option sets, all sequences of passes',
     'Tests check single library calls on fixed samples; none runs the formatter or feeds its output back.',
     ['apps/flpr-format.cc', 'apps/flpr_format_base.cc', F + 'Logical_File.cc', F + 'Logical_Line.cc', F + 'File_Line.cc', F + 'Parsed_File.hh'],
     [('splitting of compound lines', 'apps/flpr_format_base.cc: split_compound_stmts'),
      ('indentation', F + 'Parsed_File.hh: indent; ' + F + 'File_Line.cc: set_leading_spaces'),
      ('conversion to free form', F + 'Logical_File.cc: convert_fixed_to_free')])
prop('P15', 'Processing several files in one run equals processing each alone',
     'A tool given several files produces, for each of them, the same output, the same changes on disk and the same success or failure as in a run on that file alone; the outputs appear in the given order. '
     'A missing, unreadable or unparsable file among them does not alter what happens to the files before it, nor to those after it for the tools that continue.',
     ['histories', 'inputs', 'configurations'],
     'all lists of files, with or without missing and malformed members, all option sets',
     'Tests use one file per process; state carried from one file to the next is invisible to them.',
     ['apps/flpr-format.cc', 'apps/parse_files.cc', 'apps/module.cc', F + 'scan_fort.l', F + 'Logical_File.cc'],
     [('scanner state', F + 'scan_fort.l'), ('per-file objects', 'apps/*.cc: main loop')])

exec(open(os.path.join(HERE, 'bin', 'moreprops.py')).read())

NA = [
 ('P20', 'Statement grammar conforms to Fortran 2018',
  'Every syntactically valid Fortran 2018 statement is recognised as the statement kind the standard assigns to it, and every token of it appears exactly once in the concrete syntax tree.',
  ['inputs'], 'all Fortran statements',
  'A finite list of sample statements cannot cover the grammar.',
  [F + 'parse_stmt.cc', F + 'Stmt_Parsers.hh'], [('statement parsers', F + 'parse_stmt.cc')],
  'Recognition of one statement is a pure function of its tokens: no schedule, time, I/O, fault or history enters it, so there is nothing for a simulator to control; deciding it needs an independent grammar, not simulation.'),
 ('P22', 'Tokenisation agrees with the Fortran lexical rules',
  'Every source line is cut into the tokens that the Fortran lexical rules prescribe, independent of blanks and letter case.',
  ['inputs'], 'all source lines',
  'A finite list of sample lines cannot cover the lexical rules.',
  [F + 'scan_fort.l', F + 'Logical_Line.cc'], [('scanner rules', F + 'scan_fort.l')],
  'Pure function of one line; the stateful part (scanner state carried between lines and files) is covered by P06 and P15.'),
 ('P23', 'Fixed to free conversion preserves the meaning of every program',
  'A fixed-form program converted to free form has the same meaning for a Fortran processor as before.',
  ['programs'], 'all fixed-form programs',
  'Needs a notion of meaning that no sample test provides.',
  [F + 'Logical_File.cc', F + 'File_Line.cc'], [('conversion', F + 'Logical_File.cc: convert_fixed_to_free')],
  'Program equivalence of a pure text transformation; no environment behaviour is involved. The conservation part (statements, labels, comments, directives) is decided within P12.'),
 ('P24', 'The indentation widths follow the configured table',
  'Every construct is indented by the amount that the selected indentation table prescribes for it.',
  ['inputs', 'configurations'], 'all programs and indentation tables',
  'Samples cover few constructs.',
  [F + 'Indent_Table.cc', F + 'Parsed_File.hh'], [('indent table', F + 'Indent_Table.cc')],
  'Pure function of tree and table; nothing for a simulator to schedule or to fail.'),
]
claimed = [p['id'] for p in P]
for id, t, s, over, text, why, files, mech, reason in NA:
    prop(id, t, s, over, text, why, files, mech)
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
checks = []
for pid in claimed:
    c = settings.PROPS[pid]
    checks.append(dict(property=pid, quick_cmd='bin/check %s quick' % pid,
                       thorough_cmd='bin/check %s thorough' % pid,
                       technique='deterministic simulation with fault injection: ' + c['technique'],
                       level=c['level'], level_note=c['note']))
m = dict(version=1, setup_cmd='bin/build.sh',
         hooks=dict(guard='none', enable='no hooks: the simulator sits below libc (link-time wrapping of system calls, allocation, clocks and stdio), so /repo is built unchanged',
                    source_commits=[]),
         checks=checks,
         not_applicable=[dict(property=n[0], reason=n[-1]) for n in NA])
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
