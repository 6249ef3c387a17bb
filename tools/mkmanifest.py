"""Writes MANIFEST.json."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'deterministic simulation with fault injection: '
COMMON = (' Seeded search, no exhaustive claim. Assumes the simulated storage (POSIX-like namespace, process crash keeps completed operations and a prefix of the torn write; power failures, which may also lose completed writes, are the subject of C25) and the '
          'independent stubs of yWriter and the office program; everything from the converter down to the system call boundary is real code.')
T = dict(
    C01=('crash at seeded storage operations of imports/creations, crash-recovery sequences', 'Every run crashes the real import or creation at storage operations of its own recorded trace (including torn writes and crashes while handling an error) and checks after each step that a complete acceptable version is at the path or at .bak; sequences of crashes, restarts, retries, yWriter saves.'),
    C02=('storage errors at seeded operations of saves', 'Single and multiple storage errors, seized files, full disk, short writes, memory errors, interrupts at operations of the recorded trace; byte comparison of target and .bak afterwards.'),
    C03=('storage errors and crashes at seeded operations of exports', 'As C02 and C01, for all 17 document types.'),
    C04=('faults at any operation of any conversion, report compared with the fault-free result', 'Truth of the single final report is judged against a fault-free execution in a fresh simulated program and the files left behind.'),
    C05=('sequences of successful, declined, failed and crashed conversions', 'The .bak file is compared byte by byte with the replaced version after every step.'),
    C06=('lock files present from the start or appearing at a seeded operation', 'A lock that appears before any operation up to the complete reading of the source (import) or the last check before reading (export) has to be honoured.'),
    C07=('scripted dialogs: yes, no, abort, interrupt, failure', 'File tree at the moment of the question and after the answer is compared with the one before.'),
    C08=('other programs save during the dialog', 'The result has to be that of a fresh conversion of the files on disk after the answer.'),
    C09=('existing or suddenly appearing project, faults on top', 'Refusal without any change; a project that appears before the saving begins survives.'),
    C10=('whole file tree compared around every step, with decoys, faults and crashes', 'Every file and directory outside target, .bak and the temp directory is compared; attempts to leave the simulated tree are recorded by the simulator.'),
    C11=('faults at any operation, resources counted afterwards', 'Temp entries, open descriptors and the working directory of the simulated program after each conversion.'),
    C12=('histories of conversions against a fresh program; two hash seeds', 'Every result is compared with that of a fresh simulated program with another clock, other temp names, directory order and working directory; all runs are executed under two hash seeds and have to agree.'),
    C13=('failure, crash or refusal, cure, then the same conversion again', 'The repeated conversion has to succeed and equal the reference computed from the files as if the trouble had never happened.'),
    C14=('histories of exports, yWriter edits, document edits and imports against a reference model', 'Everything the document type does not carry is compared with an independent reading of the project file before the import.'),
    C15=('histories of exports, document edits and imports against a reference model', 'Every carried element is compared with the edited document as an independent model understands it; unedited documents have to change nothing.'),
    C16=('load/save generations by several programs with I/O faults', 'Meaning compared with an independent reader after every save, bytes compared from the second save on.'),
    C17=('generations of typed dividers against a reference splitter', 'Text conservation, order, fresh IDs, untouched other scenes.'),
    C18=('damaged sources and read errors', 'The result has to be an error report without any change, or the result of the undamaged source.'),
    C19=('seeded scheduler interleaves an exporting and a saving program at every storage operation', 'The export is refused or equals the export of one of the versions that were on disk; the save is what it would have been alone.'),
    C20=('long-running application re-reads while others save; failed reads in between', 'Compared with a freshly started application, before and after saving.'),
    C22=('histories of opening, closing and quitting, with other programs and read errors in between', 'The real main window runs on a stand-in for tkinter; what it holds and shows is compared with an independent reading of the file versions that existed meanwhile.'),
    C23=('histories of failed, interrupted and successful creations from generated documents, followed by exports, edits and imports', 'The new project is read by an independent reader and compared with the generated document itself; what follows is judged like the histories of C15.'),
    C24=('histories of exports of all types from several projects by programs that keep their converters, with failures, restarts, yWriter edits and imports in between', 'Every exported document is read by an independent reader and compared with what the project file contained at that time.'),
    C25=('power failures at seeded operations and between conversions, seeded loss of unflushed contents and directory changes, then restart', 'The simulated device journals directory changes in order and may lose unflushed contents (empty, prefix, zeros, old); the last complete version of project, documents and settings has to be on it, and work has to go on.'),
    C26=('storage errors, crashes and histories of data exports, with yWriter edits and restarts in between', 'The three data files are read by an independent reader and compared with what the project contained at that time; after errors and crashes each one has to be complete at its path or in .bak.'),
    C27=('histories of template generations and updates for several projects sharing a dictionary, with storage errors and crashes at any operation', 'Independent readers of PO, JSON and MO files; after each run the contents are compared with those before (union, precedence, order), after failures each file has to be complete at its path or in .bak.'),
    C28=('the runs of the other checks (same seeds, faults, crashes, users, programs) repeated with the application as one script made by the inliner, and of the sample applications; builds of generated packages with storage errors and crashes at any operation', 'Differential: storage operations, messages and all files of the run with the built script are those of the run with the modules; generated applications have to give the same transcript; after failed builds the script is the previous or the complete new one.'),
    C21=('settings written and read by several programs with crashes and faults at seeded operations, damaged files', 'Compared with a reference model of settings.'),
)
NA = dict(
    C31='word counting is a pure function of one string: no state, time, I/O or schedule for a simulation to decide; property-based testing would be the tool',
    C32='markup conversion is a pure function of one text; where markup takes part in histories (edited documents with formatting, comments, notes, quotations, lists, foreign words) C14, C15, C17, C23 and C24 judge it',
    C35='one call to the desktop with a path, no return value, history or fault handling; the simulator only records the call',
)
READY = json.load(open(os.path.join(HERE, 'tools', 'ready.json')))
checks = []
na = [dict(property=k, reason=v) for k, v in sorted(NA.items())]
for k in sorted(T):
    if k in READY:
        checks.append(dict(property=k, quick_cmd=f'python3 run.py {k}', thorough_cmd=f'python3 run.py {k} --tier thorough', technique=TECH + T[k][0], level='exploration', level_note=T[k][1] + COMMON))
    else:
        na.append(dict(property=k, reason='check under construction'))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='No hooks are needed in /repo: the seams are open/os/io/time/locale/tempfile and the public classes. All commits in /repo are repairs ("fix:"), listed in known_findings.txt.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
