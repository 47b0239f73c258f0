"""Per-property search budgets and evidence texts."""
import json, os

WORKERS = 8
LIB = 'libflpr: File_Info, File_Line, Logical_File/Line, LL_Stmt, scanner, statement and program parsers'
MOD = 'apps/module (real main)'
STUBS = ['operating system below libc: open/read/write/writev/close/rename/unlink/stat/lseek/getpid, '
         'stdio and filebuf descriptors run on an in-memory file system with a durable and a volatile image',
         'malloc/operator new (wrapped: seeded failure, fill pattern and placement)',
         'clock_gettime/gettimeofday/time/getrusage (simulated clock)',
         'process exit, crash and power loss (fork per simulated process)']
ASSUMPTIONS = [
    'the independent reference scanner (sim/ref.cc) and generator (sim/gen.cc) stay within the subset of Fortran described in DESIGN.md',
    'rename is atomic and, like file data, not durable before a sync: power loss keeps any prefix-consistent subset',
    'simulated processes run single threaded, as the tools are',
]

NOTE = ('Seeded search over simulated executions, not exhaustive: it holds on every execution explored. Trusted: the '
        'simulated operating system, the generator and the independent reference scanner of /verif/sim. ')

# quick/thorough: (simulated runs, wall-clock cap in seconds)
PROPS = {}
def p(pid, technique, rule, real, quick, thorough, note='', level='exploration', assumptions=()):
    PROPS[pid] = dict(technique=technique, rule=rule, real=real, quick=quick, thorough=thorough,
                      level=level, note=NOTE + note, assumptions=list(assumptions))

TOOLS = 'apps: module, flpr-format, caliper, parse_files, flpr_show_cst (real main functions)'
p('P01', 'generated files read under seeded segmentation, short and interrupted reads, compared with an independent reference scanner',
  'One run: 1-3 generated files read through one of five entry points under a seeded delivery of the bytes. Non-trivial: '
  'the delivery was disturbed (short or interrupted read, or a segmented stream).',
  [LIB], (24000, 60), (1500000, 700))
p('P02', 'seeded failing open/read calls in every reader and tool, retry histories',
  'One run: one generated file, one of twelve readers or tools, 1-2 failing open or read calls or a failing stream. '
  'Non-trivial: the failure happened.',
  [LIB, TOOLS], (30000, 60), (500000, 700))
p('P03', 'seeded crash points, torn writes and power loss over a durable/volatile disk model',
  'One run: 1-3 generated Fortran files, one undisturbed and one disturbed run of the module tool; '
  'a crash point, power loss and failing calls placed inside the recorded system calls. Non-trivial: '
  'the crash or a failing call actually happened.',
  [MOD, LIB], (16000, 60), (200000, 700))
p('P04', 'seeded failing, short and interrupted calls against an exit-status and file-state oracle',
  'One run: 1-3 generated files, the module tool with failing, short or interrupted calls, a missing file '
  'or name list. Non-trivial: a fault fired or an input was missing.',
  [MOD, LIB], (20000, 60), (200000, 700))
p('P05', 'seeded write failures, full and partial writes on the output of the tools',
  'One run: a tool on a generated file, an undisturbed and a disturbed run with faults on its output. Non-trivial: a fault fired.',
  [TOOLS, LIB], (16000, 75), (300000, 700))
p('P07', 'seeded interleavings of editing clients over one file, with save/reload under write faults, refinement of a reference statement list',
  'One run: one generated file and a history of 1-14 (thorough: 40) editing steps of several clients (split, isolate, insert, replace, '
  'substitute, append, relabel, indent, query, save and reload with failing or short writes). Non-trivial: at least two steps were checked.',
  [LIB], (60000, 90), (1500000, 700))
p('P08', 'seeded interleavings of clients that hold statement handles and tree positions with clients that edit, identity oracle',
  'One run: one generated file, 1-5 watched tree positions, a history of 1-14 (thorough: 40) editing steps. Non-trivial: at least two steps were checked.',
  [LIB], (40000, 90), (1500000, 700))
p('P13', 'seeded interleavings of procedure editors alive at the same time, region model',
  'One run: one generated file, an editor on each procedure (nested ones included), a history of 1-12 (thorough: 40) steps. '
  'Non-trivial: at least two steps were checked.',
  [LIB], (30000, 90), (1000000, 700))
p('P06', 'seeded interleavings of library sessions, some abandoned by read failures, allocation failures or junk input, compared with each session alone in a fresh process',
  'One run: 2-4 sessions on generated files with 4-14 (thorough: 30) interleaved calls, among them inputs that break off, failing '
  'allocations and junk text; then each session alone in a process with different memory contents. Non-trivial: at least two answers compared.',
  [LIB], (40000, 100), (2000000, 700))
p('P09', 'seeded query histories on a lazily evaluated file, compared with a file asked only that question',
  'One run: 2-8 (thorough: 16) calls on one generated file, each answer compared with that of a fresh file; the history is repeated. '
  'Non-trivial: at least two answers compared.',
  [LIB], (36000, 120), (1500000, 700))
p('P14', 'seeded histories of registering, clearing and parsing, model of the registry',
  'One run: 1-3 files with extension statements, 3-16 (thorough: 40) steps. Non-trivial: at least one file was parsed.',
  [LIB], (60000, 100), (2000000, 700))
p('P17', 'seeded chains of tool runs over one simulated disk with failing and crashing stages that are repeated, composition of reference transformations',
  'One run: one generated program, a chain of 1-3 (thorough: 5) runs of the instrumentation, formatting and module tools, 0-3 faults or crashes, '
  'failed stages repeated. Non-trivial: at least one stage completed and was compared.',
  [TOOLS, LIB], (24000, 80), (800000, 700))
p('P18', 'seeded histories of loading, editing and tool runs with failing, short and crashing saves that are repeated, refinement of an independent recursive-descent reference grammar',
  'One run: 1-3 generated programs (one in six malformed by a lost, repeated or swapped statement) loaded through three entry points, then a history of edits and tool '
  'runs with faults; after every step the tree of the program is compared with that of the reference grammar on the same text. Non-trivial: at least one step was compared.',
  [LIB, TOOLS], (30000, 80), (1000000, 700))
p('P19', 'seeded histories of container operations by several holders of positions with failing allocations, refinement of plain models',
  'One run: three lists and three trees, 4-50 (thorough: 120) operations on them drawn by the seed with up to 12 held list positions, 8 ranges and 16 cursors, '
  'up to four failing allocations; everything is compared with the models after every operation. Non-trivial: at least four operations were checked.',
  ['libflpr: Safe_List, SL_Range, Tree and its nodes and cursors'], (300000, 60), (3000000, 500))
p('P21', 'seeded interleaved histories of edits by the holders of lines of one file read in pieces, refinement of a plain list of tokens and of an independent reader of the text',
  'One run: one generated file delivered in pieces, 2-20 (thorough: 60) edits drawn by the seed on its lines, on copies and on split-off parts, '
  'checked after every edit. Non-trivial: at least two edits were checked.',
  [LIB], (60000, 70), (1500000, 600))
p('P16', 'seeded storage damage (torn, zeroed, lost, repeated and flipped blocks and lines) between writer and reader, fail-stop oracle',
  'One run: one generated file of which the disk returns a damaged version (1-3, thorough 6, damages of ten kinds), read by one of three readers '
  'or handled by one of four tools. Non-trivial: the text that was read differs from the text that was written.',
  [LIB, TOOLS], (140000, 90), (3000000, 700))
p('P10', 'seeded histories of crashed and failed runs over one disk, recovery and repetition, exactly-once oracle',
  'One run: a history of 2-4 (thorough: 6) module runs with different modules and triggers, each possibly '
  'crashing or failing, operator recovery, then an undisturbed repetition of all. Non-trivial: at least '
  'one run completed its checks.',
  [MOD, LIB], (10000, 75), (120000, 700))
p('P11', 'seeded allocation failures in every tool, fail-stop oracle',
  'One run: a tool on generated files with one failing allocation (single or persistent) at a seeded point. '
  'Non-trivial: the allocation failed.',
  [TOOLS, LIB], (24000, 60), (500000, 700))
p('P12', 'seeded histories of formatting passes over a simulated disk, conservation and fixed-point oracle',
  'One run: a generated program sent through 1-3 formatter stages with seeded options, each repeated three times, every '
  'output fed back as input. Non-trivial: all stages ran.',
  [TOOLS, LIB], (16000, 80), (150000, 700))
p('P15', 'seeded multi-file runs compared with single-file runs in fresh simulated processes',
  'One run: 2-4 generated files, possibly one missing or malformed, one tool. Non-trivial: both executions completed.',
  [TOOLS, LIB], (18000, 75), (200000, 700))

def finding_for(here, plan):
    name = os.path.basename(plan)
    for l in open(os.path.join(here, 'known_findings.txt')):
        l = l.strip()
        if not l.startswith('{'):
            continue
        e = json.loads(l)
        if e.get('plan') == 'known/' + name:
            return e
    return None
