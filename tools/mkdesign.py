import json,os,glob
D=[]
a=D.append
a('''# Deterministic simulation of pyucis

pyucis is a Python library plus a command line for coverage databases (UCIS). It has no network and no timers of
its own. What it meets in deployment, and what the listed properties depend on, is **disk I/O** (XML, gzip, YAML,
schema files, reports, stdout), **process crashes and interrupts**, **caller threads**, **clock / time zone / locale
/ user data base / working directory of the host**, and a **foreign C library**. All of these are put behind seams the
simulator owns, inside one process:

| source of nondeterminism | seam (no hook in /repo is needed) |
|---|---|
| files | `builtins.open`/`io.open` are replaced for the scratch directory and the package's schema files: a raw device under Python's real buffered/text layers with short reads/writes, EINTR, EIO, ENOSPC, early EOF, open/seek/close/flush failures, crash after byte B, then loss/zeroing of the non-durable tail |
| crash + restart | `SimCrash` (BaseException) stops the device; the package is purged from `sys.modules` and re-imported; only the files survive |
| interrupts / allocation failures | a `sys.settrace` line counter raises KeyboardInterrupt / MemoryError / OSError at the n-th executed source line of the package |
| threads | real threads, parked and released one at a time at line/bytecode/file-operation/lock points; the seeded scheduler picks who runs (policies: random, round robin, priorities, few switches, long *stalls* at places seen for the first time and at I/O); locks are replaced by scheduler-aware ones |
| clock, zone, user, locale, cwd | `datetime`/`_datetime`/`time` replaced by a simulated clock, TZ via tzset, `pwd`/environment, locale encoding given to `open` without encoding, `chdir` inside the scratch directory |
| C library | a small C library (`sim/ucisstub.c`), compiled at check time and loaded through the product's own loader, keeps a readable object model and fails the n-th call on demand |
| caller streams | simulated sockets/pipes delivering drawn chunk sizes, breaking at a drawn byte |
| randomness, hash order | one PRNG per run seeded from VERIF_SEED, property and run index; runs are checked for equal event digests under another PYTHONHASHSEED in fresh processes |

One run = one JSON *plan* (environment, operations, databases, faults, schedule), produced from one integer. Execution
is a function of plan and code. On a violation the plan is minimised (operations, faults, thread switches, database
contents), replayed in a fresh process to confirm it, and written as the replay file
(`check.py CNN --replay FILE` reproduces it exactly). The search is seeded pseudo-random sampling, never exhaustive;
levels in MANIFEST.json say so.

## How one check works

`check.py CNN` loads `props/cNN.py`, which offers `gen(rng, tier, index) -> plan` and `run(plan, ctx)`. `sim/runner.py`
spreads the runs over 8 processes, forks a child per 40 runs, collects event digests and statistics, re-executes a
sample of runs in a fresh interpreter with another hash seed and compares digests (a difference is reported as a broken
harness, not as a violation), and writes `evidence/CNN.json`. Quick = a fixed number of runs (30-110 s); thorough = 40
to 90 times as many. `VERIF_REPO` points the check at another tree (used for mutants); without it, it is `/repo`.

The oracle is an independent reference model (`sim/model.py`): a coverage database as nested dictionaries, its merge as
a sum, its report as arithmetic over it, what XML can carry of it. Databases are recorded simultaneously through the real
API (`sim/build.py`, `sim/live.py`) and in the model. XML and YAML documents of foreign origin come from independent
renderers (`sim/xmldoc.py`, `sim/yamldoc.py`); documents outside the schema from `sim/spoil.py`, judged with the
harness's own copies of the two published schemas (`sim/schema/`).

**Never an alarm on correct code**: the harness compares observable results (data, bytes of files that must not change,
exit codes, open handles), never texts of messages, private attributes, call counts, numbers of I/O operations or order
of internal steps. Faults are addressed as "the n-th read of this file", but the verdict only uses whether the fault
*fired*. Interrupt positions may fall anywhere; each verdict holds for every position. Reports of equal content must be
equal among themselves and are parsed leniently against the model.

## Properties and how each is decided

For all: generated databases have 1-3 instances, covergroups shared or not, cover instances or type-only data,
ignore/illegal bins, crosses, weights and at_least including 0, counts to 2^63, names with markup, non-ASCII,
white-space-edged, empty and near-identical spellings, history records with every field (infinite times, exponents, empty
strings). Reader, writer, merger and format objects are fresh in 60 % of the runs and used again and again in the others
(`ctx.tool`). Two per cent of the shapes are wide (up to hundreds of bins, cover instances, coverpoints or instances), so that
size thresholds are crossed; histories may be long. C04 and C05 also run user-registered formats (`sim/userfmt.py`: a
database format, a stream report, a directory report, and ones that refuse) through the registry and the command line;
deletions by the command are confined to the scratch directory by the harness. "x quick / y thorough" are simulated runs.
''')
import sys
sys.path.insert(0,'.')
props={}
for l in open('properties.jsonl'):
    p=json.loads(l); props[p['id']]=p
import importlib
extra={
'C01':"Oracle: model + `model.saved()` (what XML carries). Tests only save a fixed database once; loss shows up only for particular names, values, fault+retry histories or generations.",
'C02':"Oracle: an exception, or exact equality with the complete save. Cuts are drawn over all bytes, biased to the end of the file, of tags and of gzip members.",
'C03':"Oracle: model.merge (sum per key); permutations and groupings of one multiset must agree with it. Sources dumped before and after.",
'C04':"Oracle: byte comparison of the whole directory around every operation.",
'C05':"Oracle: exit status <-> a hard fault fired on the output side / input invalid; each status-0 output parsed and compared with the model.",
'C06':"Oracle: each thread's results equal the model of what it did alone. Measure of interleavings: digests of the switch sequences.",
'C07':"Oracle: interval check - each observation lies between the state at its beginning and the state at its end, per bin; plus set inclusion for records.",
'C08':"Oracle: reference texts and models obtained undisturbed; simulation locks turn a lock left held into a reported deadlock instead of a hang.",
'C09':"Oracle: host-independent model; stamps against the simulated clock.",
'C10':"Oracle: model.report_of; text parsed by a tolerant parser, JSON by name lookup.",
'C11':"Oracle: dump of the stub library's object tree against a Python mirror; `sim_misuse` reports calls with foreign/NULL/freed handles; refused call => exception.",
'C12':"Oracle: full dump (all scopes, options, bins, history) of every other database and report before/after each change.",
'C13':"Oracle: mirror model incl. atomicity of interrupted creation: the state must equal before or after, never in between.",
'C14':"Oracle: table of simulated handles + /proc/self/fd; caller streams' `closed` flag and contents.",
'C15':"Oracle: the description the document was rendered from.",
'C16':"Oracle: an independent validation with the harness's own copies of the schemas decides whether an edited document conforms; the verdict of the package must be a rejection under all deliveries, histories and faults.",
'C18':"Oracle: differential - the same plan performed through methods and through functions (or a mixture) must leave equal logs, databases, files and library contents. Backend 'user' is a database class written against the public base class, which honours every argument of write() and refuses on demand.",
}
for pid in sorted(props):
    p=props[pid]
    if pid=='C17':
        a('### C17 %s\n\nNot applicable: the values are compile-time constants; no schedule, fault, clock, I/O or history influences them, so there is nothing to simulate. (The UCIS header is not available offline either, so there would be no oracle.)\n'%p['title'])
        continue
    P=importlib.import_module('props.'+pid.lower()).PROP
    a('### %s %s\n'%(pid,p['title']))
    a('%d quick / %d thorough. Method: %s. %s'%(P.runs['quick'],P.runs['thorough'],P.rule,extra[pid]))
    own=[x for x in P.assumptions if 'simulated disk keeps' not in x and 'databases are ones the XML' not in x]
    if own: a('Bounds and assumptions: '+'; '.join(own)+'.')
    a('')
a('''## What ran as real code and what as a stub

Real: all of `src/ucis`, lxml, PyYAML, jsonschema, python_jsonschema_objects, gzip, Python's buffered and text I/O layers,
ctypes, a real scratch directory under the temporary directory. Stub: the raw device under `open`, stdout/stderr pipes,
clock, zone rules selection, user database, locale encoding, thread scheduler and locks, the UCIS C library. The hash seed cannot be exchanged inside
a process; C09 runs a fixed pipeline (`sim/hashrun.py`) in two fresh interpreters with drawn seeds. Process
restart is module purge + re-import in the same interpreter; third-party modules stay loaded (they hold no package
state). Line coverage of `src/ucis` under all checks (tools/linecov.py) reaches everything except abstract base bodies,
stubs that raise "unimplemented" and the lz4 branch (no lz4 here).

## Genuine defects found and repaired

`known_findings.txt` lists %d repairs (all "fix:" commits in /repo; no open finding). Sensitivity: `tools/sens.sh` reverts
each fix commit alone and runs the check that found it. Every revert that applies is reported again; reverts of 9b23584,
d3b89fb, a48535b, 6b58a7a, e76ad99 and 8565d0f conflict with later fixes of the same lines and were checked while they
were made; b58e7f4 only concerns the text of a message.

## Known limitations (kept out of the statements and generators, not claimed)

* Nested instances are dropped by writer, merger and report; merge/convert do not carry history or source information and
  set instance weight to 1; the parent of a history node is not written to XML. These are missing features marked TODO.
* Databases the XSD cannot express (no instance, covergroup without coverpoints, coverpoint without bins, negative or
  infinite cost) cannot be saved as loadable XML; non-uniform at_least inside one coverpoint; type data and per-instance data
  recorded inconsistently for one covergroup; several ranges or sequences per XML bin (only the first is read).
* YAML: `yaml_factory.py` is a syntax stub; writing is unimplemented.
* Output replacement is not atomic (a crash *while* writing the output may leave a torn output, which C02 then requires
  to be detected); concurrent rewriting of a file that is being read is not claimed.
* Text reports to a stdout that cannot encode the names
  fail (with an error). Names with line breaks are not used in text-report checks.
* Library backend: at_least is not delivered (goal=1), 32-bit scope iteration mask, `get*Property` unimplemented, file handles of
  another backend in source information raise, abandoned iterators are not freed, the error callback prints to stdout.
  `ucis_RemoveScope` has no method behind it. `ucis_CreateNextCover` needs a parent. TestStatusT is 1-based where the UCIS header
  is probably 0-based; this cannot be settled offline.
* Duplicate design-unit scopes after merge; merging into a non-empty destination; two recorders on the same bin (updates can be
  lost); a database without history reads back with one "dummy" record; reports do not list ignore/illegal bins of crosses;
  setTestData with several fields is not atomic; XML writtenTime has day granularity; COVER_GOAL aliases SCOPE_GOAL; source
  information objects may be shared by merge; pathlib paths are not accepted; XmlReader.read by itself does not validate.

## False alarms met and what was done

* Merge with differing at_least/weights between sources: the first source wins by design; statement and generator now require
  equal options. * Crash between opening and closing the output: nothing is promised about the output then; C04 limits itself to
  failures before the result is written. * Interrupt on `with`/`try`/`finally` lines is delivered before the statement protects
  anything, which no Python code can survive; such lines are skipped. * The host's own buffering retried EINTR on raw streams:
  treated as absorbed. * A text report printed to an ASCII stdout: excluded. * History fields XML cannot hold (infinite cost) were
  removed from the generator. * White space around cross references is formatting unless names have edges. * A simulated raw file
  passed EINTR on where a real one calls again (PEP 475): an output opened without buffering then looked like a failure without
  cause; the simulated device now calls again too. Likewise it wrote a part of a buffer and raised in one call; write(2) reports the
  part and fails the next call, so a chunked writer repeated that part when it was closed and damaged its own file.

## Planted bugs

%d planted bugs are kept in `seeded/`; tools/plantrun.sh applies each to a scratch copy and runs the check of its property. All are
caught in the quick tier at seed 1. Those marked * were missed when planted and led to the strengthening named.

| id | property | needs |
|---|---|---|''')
strength={'c06-schema-two-step':'scheduling policy `stall` (long stalls at first-seen places and at I/O), shared first operation',
 'c08-cwd':'user-relative paths and comparison of process-wide state with an undisturbed execution',
 'c16-version-lenient':'documents of foreign versions and free-text attributes; several edits',
'c18-close-error':"backend 'user' that refuses calls",'c18-write-defaults':"backend 'user' that honours every argument of write",
'c15-bin-merge':'near-identical names that differ in white space','c15-gz-name':'file names unrelated to contents',
'c08-merger-state':'tool objects reused across failure and retry',
 'c07-second-look':'coverage figures of observed reports are checked against the bins they list',
 'c03-many-bins':'wide databases','c16-large':'wide databases in edited documents',
 'c05-convert-refused':'user-registered formats that refuse','c04-report-dir':'directory reports',
 'c13-shared-goal':'options never set are compared as well','c13-source-type':'options never set, property-only options',
 'c16-own-writer':'documents that name any writer, the current user included','c11-write-code':'refusals with codes other than -1',
 'c03-wide':'merges of up to 260 sources','c08-stdout':'process-wide state compared right after every cut, standard streams included',
 'c15-zone':'documents loaded under drawn time zones','c10-long-name':'names of thousands of characters',
 'c09-set-order':'pipelines repeated in processes that differ in the hash seed'}
n=0;rows=[]
for d in sorted(os.listdir('seeded')):
    m=json.load(open('seeded/%s/meta.json'%d)); n+=1
    rows.append('| %s%s | %s | %s%s |'%(d,'*' if d in strength else '',m['property'],m['needs'].replace('|','/'),' -> '+strength[d] if d in strength else ''))
txt='\n'.join(D)
nf=sum(1 for l in open('known_findings.txt') if l.startswith('fixed:'))
txt=txt.replace('lists %d repairs','lists %d repairs'%nf).replace('\n%d planted bugs','\n%d planted bugs'%n)
txt+='\n'+'\n'.join(rows)+'\n'
import textwrap
out=[]
for l in txt.split('\n'):
    if l.startswith(('|','#','*')) or len(l)<=122: out.append(l)
    else: out+=textwrap.wrap(l,118,break_long_words=False,break_on_hyphens=False)
open('DESIGN.md','w').write('\n'.join(out).rstrip()+'\n')
