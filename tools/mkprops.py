#!/usr/bin/env python3
"""Authoring source of properties.jsonl (run by hand; the jsonl is committed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))

YW = 'src/pywriter/yw/yw7_file.py'
ODF = 'src/pywriter/odf/odf_file.py'
CNV = 'src/pywriter/converter/yw_cnv_ui.py'
FF = 'src/pywriter/converter/yw_cnv_ff.py'
FE = 'src/pywriter/file/file_export.py'

prop('C01', 'A crash at any instant never loses the writer\'s project',
 'If the program is killed at any instant of a conversion that saves a yWriter project (importing a document or creating a project), '
 'then afterwards a complete, loadable version of the project - the one before the save or the new one - exists at the project\'s own path or at that path plus ".bak". '
 'This stays true over any sequence of crashes and later attempts: re-running after a crash never destroys the last complete version.',
 ['crash_points', 'histories'],
 'every kill point of every save (each storage operation, and inside each write), for every project, and every sequence of crashed and completed saves',
 'Tests run saves to completion; none kills one. A save is ~10 storage operations plus partial writes, and sequences of crashes multiply that.',
 [YW, CNV], [('rename previous project to .bak before writing, never touch .bak otherwise', f'{YW}:_write_element_tree'),
             ('refuse to process an unparsable project', f'{YW}:read'), ('postprocessing rewrites the new file only', f'{YW}:_postprocess_xml_file')],
 [('project file', 'the only copy of the novel', '<name>.yw7'), ('backup', 'previous generation', '<name>.yw7.bak')],
 ['files at <name>.yw7 and <name>.yw7.bak after the kill'])

prop('C02', 'A save that fails leaves the previous project in place',
 'When saving a yWriter project fails because of a storage error (disk full, I/O error, refused rename, file in use, short write) the project file is still, byte for byte, the version from before the attempt - at its own path if the rollback itself was allowed to work, otherwise at the ".bak" path. '
 'When there was no project before, no partial project file is left behind as long as it can be deleted.',
 ['fault_sequences', 'inputs'],
 'every storage error kind at every storage operation of the save, transient or persistent, with and without a previous project and previous backup',
 'No test injects a storage error; the rollback branches are never executed by the suite.',
 [YW, CNV], [('backup and rollback', f'{YW}:_write_element_tree'), ('rewrite of the new file', f'{YW}:_postprocess_xml_file')],
 [], ['bytes of <name>.yw7 / .bak after a reported failure'])

prop('C03', 'A failed export leaves the previous document in place',
 'When exporting a text document or spreadsheet fails because of a storage error, a document that existed at the target path is still there byte for byte (at ".bak" if the rollback itself failed). '
 'If none existed, no partial document is left at the target path as long as it can be deleted. '
 'A crash during an export leaves either the previous document (at its path or ".bak") or the complete new one.',
 ['fault_sequences', 'crash_points'],
 'every storage error kind and kill point at every storage operation of an export, for all 17 document types, with and without a previous document',
 'No test injects a storage error or a crash into an export.',
 [ODF, FE, CNV], [('backup and rollback around zip packing', f'{ODF}:write')],
 [], ['bytes of the target document and its .bak'])

prop('C04', 'Every conversion ends in exactly one truthful report',
 'Each conversion returns normally to its caller and reports exactly one final outcome. '
 'If success is reported, the new file named by the converter exists and is complete: it equals what the same conversion yields without faults. '
 'If failure is reported the message is marked as an error and no new file is announced; storage errors while reading or writing are never swallowed into a success. (A user\'s Ctrl-C and exhausted memory may leave the conversion as the exception they are, but never together with a reported success.)',
 ['fault_sequences', 'inputs', 'schedules'],
 'every conversion kind, every source and target state (missing, damaged, locked, read-only, unsupported), every storage error at every operation, every user answer',
 'Tests cover ordinary successes and three failures; truthfulness under faults has to hold for every operation that can fail.',
 [FF, CNV, ODF, YW, 'src/pywriter/ui/ui.py', 'src/pywriter/ui/ui_cmd.py'], [('try/except/else/finally around check, read and write', f'{CNV}:export_from_yw, create_yw7, import_to_yw'), ('unsupported-type and not-found reporting', f'{FF}:run')],
 [('newFile', 'path announced on success', f'{CNV}')], ['UI messages, converter.newFile, exceptions leaving run()'])

prop('C05', 'After each successful overwrite the backup is the replaced version',
 'Whenever a conversion reports success and thereby replaced an existing file (project, text document or spreadsheet), the file at the target path plus ".bak" is byte-identical to the version that was replaced. '
 'Over any sequence of successful, refused, declined and failed conversions the backup is never a mixture, and never is a version newer than the current file.',
 ['histories', 'fault_sequences'],
 'all histories of conversions on shared targets with refusals, declines, failures and outside edits in between',
 'Tests overwrite each file at most once and do not look at the backup.',
 [YW, ODF, FE], [('os.replace(target, target.bak) before writing', f'{YW}:_write_element_tree; {ODF}:write; {FE}:write')],
 [], ['bytes of <target>.bak against the recorded history'])

prop('C06', 'A project locked by yWriter is never read or changed',
 'While yWriter\'s lock file exists next to a project, every conversion from or into that project is refused with an error and neither the project nor any other file is changed. '
 'This includes a lock that appears while the conversion is under way, at any moment up to the complete reading of the source document (import) or the beginning of the reading of the project (export); once the lock is gone, the same conversion works again.',
 ['schedules', 'histories'],
 'every moment at which yWriter may start (lock) or stop (unlock) relative to the storage operations of a conversion, for imports, exports and creations',
 'Tests never create a lock file.',
 [YW, CNV], [('lock test at the beginning of read()', f'{YW}:read, is_locked'), ('lock test again at the beginning of write()', f'{YW}:write')],
 [('<name>.yw7.lock', 'yWriter has the project open', 'project directory')], ['project, directory listing, reported outcome'])

prop('C07', 'Nothing is overwritten without the user\'s consent',
 'If the target file of a conversion exists, the user is asked once before anything is changed, and the question names the file. '
 'If the answer is no, or the dialog is aborted or fails, the conversion reports failure and no file is created, changed or removed. '
 'If the target does not exist, the user is not asked.',
 ['histories', 'fault_sequences', 'schedules'],
 'all conversion kinds, all target states, answers, aborted dialogs (end of input, interrupt), also after earlier accepted overwrites by the same program instance',
 'The test UI always answers yes.',
 [CNV, 'src/pywriter/ui/ui_cmd.py', 'src/pywriter/ui/ui.py'], [('check() with confirm-overwrite callback', f'{CNV}:check, _confirm_overwrite')],
 [], ['questions asked, full snapshot of the file system before/after'])

prop('C08', 'What other programs save while the user is being asked is honoured',
 'While the program waits for the user\'s answer, yWriter or the office program may save new versions of the project or of the document. '
 'A conversion that then goes ahead works on the versions on disk after the answer: no such edit is lost from the project, and none is ignored in the document.',
 ['schedules', 'histories'],
 'every edit of project and document by other programs placed between the start of a conversion and the user\'s answer',
 'The test UI answers instantly; nothing else ever changes the files.',
 [CNV], [('check() runs before target.read() and source.read()', f'{CNV}:import_to_yw, export_from_yw')],
 [], ['project and document content after the conversion against the model'])

prop('C09', 'Creating a project never destroys an existing one',
 'A document that would become a new project is refused with an error if a project of that name already exists, and that project stays byte-identical; the user is not even asked. '
 'If the project only appears while the conversion is running, but before the saving begins, its content survives at its own path or at ".bak".',
 ['schedules', 'histories'],
 'all work-in-progress and outline documents, project appearing before or at any operation of the conversion, repeated attempts',
 'Tests create each project once in an empty folder.',
 [CNV, 'src/pywriter/converter/new_project_factory.py', YW], [('existence test before reading', f'{CNV}:create_yw7'), ('second test in check()', f'{CNV}:check'), ('rename to .bak', f'{YW}:_write_element_tree')],
 [], ['bytes of the existing project'])

prop('C10', 'A conversion touches only its target, the target\'s backup and temp files',
 'Whatever the outcome of a conversion - success, refusal, error, storage fault or crash - no file or directory other than the target file, the target\'s ".bak" and entries of the temporary directory is created, changed, renamed or removed. '
 'In particular the source file keeps its bytes, and neighbouring projects, documents, backups and lock files stay untouched.',
 ['fault_sequences', 'crash_points', 'histories'],
 'all conversion kinds and suffixes in directories full of similarly named files, under every storage fault and kill point',
 'Tests look at the output file only.',
 [CNV, YW, ODF, FE, 'src/pywriter/converter'], [('target path built from source path and suffix', 'src/pywriter/converter/*_factory.py'), ('temporary directory outside the project folder', f'{ODF}:__init__')],
 [], ['full snapshot of the file system'])

prop('C11', 'No conversion leaks temp data, open files or a changed working directory',
 'When a conversion has ended - successfully, refused, or with an error at any point - and its objects are gone, no temporary file or directory remains, no file is left open, and the current working directory of the program is the one from before. '
 'This holds for every storage fault except one that hits the removal of the temporary data itself or the return to the working directory, and over any number of conversions in one program.',
 ['fault_sequences', 'histories'],
 'every storage error at every operation, all conversion kinds, long sequences in one program',
 'Tests run successes only and never look at the temp directory, descriptors or the cwd.',
 [ODF, 'src/pywriter/odt_r/odt_parser.py', 'src/pywriter/ods_r/ods_parser.py', 'src/pywriter/converter/new_project_factory.py'], [('_tear_down in write() and __del__', f'{ODF}'), ('chdir back in success and failure path', f'{ODF}:write')],
 [], ['temp directory listing, open handle table, cwd'])

prop('C12', 'The result depends on the files alone, not on history or surroundings',
 'The file a conversion produces is determined by the source file and, for imports, the project (plus system language and, in document metadata, the creation time). '
 'It is the same from a fresh program and from one that has already run any sequence of other conversions, successful or failed, with other projects, and it does not depend on clock, temporary names, working directory, directory order, or hash seed.',
 ['histories', 'configurations', 'schedules'],
 'all sequences of earlier conversions in the same program; all clocks, temp names, working directories, hash seeds',
 'Each test starts from a clean object and folder in one environment.',
 ['src/pywriter/converter', 'src/pywriter/file/file_export.py', 'src/pywriter/odt_w', 'src/pywriter/ods_w', 'src/pywriter/odt_r', 'src/pywriter/ods_r', YW], [('new Novel and file objects per conversion', f'{CNV}; src/pywriter/converter/*_factory.py')],
 [], ['produced file compared with that of a fresh program'])

prop('C13', 'Once the trouble is over, simply running the conversion again works',
 'After any failed, interrupted or crashed conversion, when the cause is gone (disk has space, file released, lock removed, source repaired, torn project restored from its backup by renaming), running the same conversion once more succeeds and yields exactly what it would have yielded had the failure never happened. '
 'This holds both in the same program instance and in a new one.',
 ['fault_sequences', 'crash_points', 'histories'],
 'all faults and kill points, all conversion kinds, retry in the same or a fresh program',
 'No test retries anything.',
 [CNV, YW, ODF], [('rollback of target', f'{YW}:_write_element_tree; {ODF}:write'), ('no persistent side state', f'{CNV}')],
 [], ['outcome and output of the retry against the fault-free reference'])

prop('C14', 'An import changes nothing the document type does not carry',
 'Importing a document into a project changes only those parts of the project that this document type is meant to write back; all other project data - other texts, titles, notes, dates, durations, types, ratings, tags, assignments, order, custom fields, project notes and variables, word targets - keep the values the project has at import time, including those edited since the export. '
 'This holds over any sequence of exports, edits and imports of all document types. (Out of scope: documents that still carry elements deleted in yWriter since; trailing blanks are no part of a text.)',
 ['histories', 'inputs'],
 'all sequences of export, project edit, document edit and import over all importable document types and all yWriter projects',
 'Each test performs one fixed round trip of one sample project.',
 [YW, 'src/pywriter/odt_r', 'src/pywriter/ods_r', CNV], [('existing element tree is updated, not rebuilt', f'{YW}:_build_element_tree'), ('readers fill in only their attributes', 'src/pywriter/odt_r/*.py; src/pywriter/ods_r/*.py')],
 [], ['project XML before/after import against a reference model'])

prop('C15', 'Document edits reach the project; an unedited document changes nothing',
 'What the user changes in an exported document - texts, titles, descriptions, table cells, added, removed or reordered table rows - is exactly what the project contains after the import, for every part that document type is documented to write back. '
 'Exporting a document and importing it again unedited leaves the project\'s meaning unchanged. (Texts of ordinary characters with bold and italics; a rating that is not set equals 1; trailing blanks are no part of a text; list documents define which characters, locations or items exist, in which order.)',
 ['histories', 'inputs'],
 'all importable document types, all edits to the parts they write back, over sequences of repeated round trips',
 'Each test performs one fixed edit on one sample project.',
 ['src/pywriter/odt_r', 'src/pywriter/ods_r', 'src/pywriter/odt_w', 'src/pywriter/ods_w', YW], [('ID-tagged sections and rows', 'src/pywriter/odt_w/*.py; src/pywriter/ods_w/*.py'), ('readers keyed on these IDs', 'src/pywriter/odt_r/*.py; src/pywriter/ods_r/*.py')],
 [], ['project XML after import against a reference model'])

prop('C16', 'Repeated loading and saving does not wear the project down',
 'Loading a project and saving it again, any number of times and by any mix of programs (this one, yWriter, yWriter for iOS with UTF-16), yields a well-formed project with the same meaning; from the second save on the file no longer changes at all. '
 'No text, title, custom field, assignment, date or type is lost, escaped twice, truncated or otherwise altered by being saved. (Custom fields: those the program knows. Dates that are no valid dates and trailing line breaks are dropped by design.) Removing the custom fields, or the language tags, of an open project and saving it removes exactly these.',
 ['histories', 'inputs'],
 'all projects (any characters, missing or additional elements, both encodings) and all sequences of load and save',
 'Tests save each sample project once.',
 [YW, 'src/pywriter/yw/xml_indent.py', 'src/pywriter/yw/yw7_purge.py'], [('read() and _build_element_tree are inverse', YW), ('CDATA re-insertion and unescaping', f'{YW}:_postprocess_xml_file'), ('encoding fallback', f'{YW}:read')],
 [], ['project bytes and parsed content after n saves'])

prop('C17', 'Splitting scenes on import loses no text and never hijacks another scene',
 'When new part, chapter or scene dividers were typed into an exported manuscript or proof document, the import distributes the text over the old and the new scenes in document order without losing, repeating or reordering any of it, under IDs that no other element of the project uses. A new scene has the type, the point in time and the duration of the scene it comes from, and both have the status draft, or outline if that is what the old scene had. '
 'All other scenes and chapters keep their content and order, every scene stays in exactly one chapter, and repeating such edits over several generations keeps this true. (Dividers: headings 1 and 2 or lines beginning with #, ##, ### and an optional title | description; each edited document is imported once.)',
 ['histories', 'inputs'],
 'all placements of dividers in all scenes, several per document, several generations, projects with gaps and arbitrary IDs',
 'One test imports one prepared split document.',
 ['src/pywriter/model/splitter.py', 'src/pywriter/model/id_generator.py', 'src/pywriter/odt_r/odt_r_manuscript.py', 'src/pywriter/odt_r/odt_r_proof.py', CNV], [('Splitter.split_scenes', 'src/pywriter/model/splitter.py'), ('create_id: next free id', 'src/pywriter/model/id_generator.py')],
 [], ['concatenated text, ID uniqueness and chapter membership after import'])

prop('C18', 'A damaged or unreadable source never damages the project',
 'If the document being imported is truncated, corrupted in any byte, replaced by something else, or becomes unreadable while it is read, the conversion either reports an error and leaves the project byte-identical, or its result is exactly that of the undamaged document. '
 'If the project itself is truncated or unreadable, the conversion reports an error and neither project nor existing documents are changed.',
 ['fault_sequences', 'inputs'],
 'every truncation point, bit flip, zeroed or swapped block of each source document; every truncation of the project; read errors at every read',
 'Tests read intact files only.',
 ['src/pywriter/odt_r/odt_parser.py', 'src/pywriter/ods_r/ods_parser.py', 'src/pywriter/odt_r', 'src/pywriter/ods_r', YW, CNV], [('source is read completely before the project is written', f'{CNV}:import_to_yw'), ('zip checksum and XML parser errors become a failed conversion', f'src/pywriter/odt_r/odt_parser.py; {YW}:read')],
 [], ['project bytes, outcome, result against that of the undamaged document'])

prop('C19', 'An export running while the project is being saved is old, new, or refused',
 'If one program exports from a project at the same time as another saves it, in any interleaving of their storage operations, the export either reports an error or delivers the complete document of one single version of the project, never an incomplete one or a mixture. '
 'The save is not disturbed by the export, and both programs keep their own temporary data. (Both programs use this code; yWriter itself announces its work by a lock file.)',
 ['schedules'],
 'all interleavings of the storage operations of an exporting and of a saving program on the same project, with torn intermediate file states',
 'Tests run one conversion at a time.',
 [YW, ODF, CNV], [('whole file is read before parsing; partial XML is rejected', f'{YW}:read'), ('unique temporary directories', f'{ODF}:__init__')],
 [], ['exported document against the set of legal documents; saved project'])

prop('C20', 'Re-reading a project shows its current state, and nothing else',
 'When an application that keeps a project open reads it again - after yWriter or another program has changed, added, deleted or moved scenes, chapters, characters, locations, items or notes - it holds exactly the content of the file, as a newly started application would. '
 'Saving afterwards writes that content: deleted elements do not come back, and a failed read does not corrupt a later one; a refused read leaves what the application holds as it is. (An attribute that is None means "leave as it is in the file".)',
 ['histories', 'fault_sequences'],
 'all sequences of outside edits, reads, failed reads and saves on one open project object',
 'Tests read each project once per object.',
 [YW, 'src/pywriter/model/novel.py'], [('lists are re-initialised "for re-reading"', f'{YW}:_read_*')],
 [], ['project file after read+save against that of a fresh application'])

prop('C21', 'Saved settings come back; unreadable settings leave the defaults in force',
 'Application settings and options written to a configuration file are read back with the same values by any later run. '
 'Settings that cannot be read - file missing, empty, torn by a crash at any point of writing, garbage, entries missing or of the wrong form - keep their previous values and never stop the program; a save that fails or is interrupted leaves the old or the new settings as a whole. (Strings of one line without blanks at the ends.)',
 ['crash_points', 'histories', 'inputs'],
 'all values, all kill points and storage errors during writing, all damaged files, sequences of write/crash/read',
 'There is no test of the configuration at all.',
 ['src/pywriter/config/configuration.py'], [('fallback to current values', 'src/pywriter/config/configuration.py:read')],
 [], ['settings and options dictionaries after read()'])

prop('C22', 'The application window always shows the project it really holds',
 'Every attempt to open a project in the application window ends normally, whatever the file is: existing, missing, locked by yWriter, damaged, changed or removed by another program meanwhile, or unreadable for the moment; given as an argument, chosen in the dialog or remembered from the last session. '
 'If opening succeeds, the application holds the complete content of that file as it was at a moment during the opening, the title bar and path bar show this project, and it can be closed. If it fails, the error that occurred is shown and no project is open. '
 'A cancelled dialog changes nothing. Opening and closing never change files. Whatever happened before, a project that is all right can be opened next. When the user quits, the last opened project and the window position are remembered for the next session.',
 ['histories', 'schedules', 'fault_sequences', 'inputs'],
 'all sequences of opening, closing, quitting and starting again, interleaved with other programs saving, locking, damaging and removing the projects at every storage operation, with read errors and kills',
 'The window classes have no tests; its state is a matter of the order of successful and failed attempts.',
 ['src/pywriter/ui/main_tk.py', YW], [('close the old project, read, enable the menu', 'src/pywriter/ui/main_tk.py:open_project'), ('settings saved on quitting', 'src/pywriter/ui/main_tk.py:on_quit')],
 [('prjFile', 'the open project or None', 'src/pywriter/ui/main_tk.py')], ['prjFile.novel, window title, path bar, status bar, state of the Close entry, settings dictionary'])

prop('C23', 'A new project contains what the document contains, ready to work with',
 'When a yWriter project is created from a document the user has written, a work in progress or an outline, the project contains every chapter, part and scene of the document in document order with its text, formatting, comments and notes (work in progress: text between headings and "* * *" dividers is the scene text; outline: third level headings are scenes, text below a heading is the description), its title, author and language. Nothing is lost, repeated, moved or invented, whatever paragraph styles, lists, quotations, subheadings, spans and line breaks the word processor has written it with. (Text before the first heading has no place in a project.) '
 'Creation never changes the document. This stays true if earlier attempts failed, were interrupted or killed, or if another document was converted before; and the created project goes through any sequence of exports, edits and imports like a project made by yWriter.',
 ['histories', 'fault_sequences', 'inputs'],
 'all documents with headings, dividers and formatted text, after all sequences of failed attempts and other conversions, followed by all sequences of exports, edits and imports',
 'Tests convert two sample documents once.',
 ['src/pywriter/odt_r/odt_r_import.py', 'src/pywriter/odt_r/odt_r_outline.py', 'src/pywriter/converter/new_project_factory.py'], [('headings, dividers, scene text', 'src/pywriter/odt_r/odt_r_import.py:handle_starttag'), ('outline descriptions', 'src/pywriter/odt_r/odt_r_outline.py:handle_endtag'), ('work in progress or outline', 'src/pywriter/converter/new_project_factory.py:make_file_objects')],
 [('novel', 'chapters and scenes read from the document', 'src/pywriter/odt_r/odt_r_import.py')], ['the new project file read by an independent reader', 'reports of the conversions'])

prop('C24', 'Every export shows the project as it is, completely and well-formed',
 'Whatever document is exported from a project - text, manuscript, proof reading copy, notes, to-do list, scene, chapter and part descriptions, synopsis, cross reference, characters, locations, items, scene list and element lists - it is a well-formed OpenDocument file that contains exactly the parts, chapters, scenes and elements its type is documented to contain (by chapter and scene type, export flag and HTML/TEX prefix), in the order of the project, each one once, under its own heading, section or row, with exactly its own present text, numbers, names and relations; bold, italic and foreign language passages, quotations, comments, footnotes and endnotes apply to the words they are meant for, and one scene never affects the presentation of another. '
 'Title, author and language of the document are those of the project. This stays true for every project, however it came about, for every sequence of exports of any types from several projects by one running program, after failed or interrupted conversions, after the project was changed by yWriter or by imports, and whatever texts the user has written, including incomplete or overlapping markup.',
 ['histories', 'fault_sequences', 'inputs'],
 'all projects with all texts, all sequences of exports of all types by one or several programs mixed with changes of the projects, failures and restarts',
 'Tests export one sample project to some types, once each, in fresh objects, and compare with a stored file.',
 [FE, 'src/pywriter/odt_w', 'src/pywriter/ods_w', 'src/pywriter/model/cross_references.py'], [('which chapters and scenes appear', f'{FE}:_get_chapters, _get_scenes'), ('markup to document format', 'src/pywriter/odt_w/odt_w_formatted.py:_convert_from_yw'), ('comments and notes', 'src/pywriter/odt_w/odt_w_export.py'), ('relations', 'src/pywriter/model/cross_references.py:generate_xref')],
 [('novel', 'the project as read for the export', 'src/pywriter/model/novel.py')], ['the exported document read by an independent reader', 'the project file read by an independent reader at the time of the export'])

prop('C25', 'A power failure never takes the last complete version',
 'If the power fails at any instant - in the middle of a conversion or of saving the settings, or any time after they have been reported as done - then, after the restart, the last complete version of the project and of every exported document is in the file itself or in its ".bak", and the settings file holds the last or the previous settings as a whole. '
 'This stays true over any sequence of conversions in quick succession and of power failures; after restoring the backup by renaming, work goes on as if nothing had happened. (Storage that keeps what has been flushed to it and records changes of directories in order; files that have not been flushed may have lost any part of their contents.)',
 ['crash_points', 'histories', 'fault_sequences'],
 'all instants of power failure, all subsets and prefixes of unflushed data lost, all sequences of exports, imports, settings writes, pauses and restarts',
 'Tests cannot cut the power.',
 [YW, ODF, 'src/pywriter/config/configuration.py'], [('backup, write, flush', f'{YW}:_write_element_tree'), ('backup, pack, flush', f'{ODF}:write'), ('write, flush, replace', 'src/pywriter/config/configuration.py:write')],
 [], ['project, documents, settings and their backups on the simulated device after the failure'])

prop('C26', 'Exported data files are complete, current and never lost',
 'Exporting the characters, locations and items of a project as yWriter data files leaves, when success is reported, three complete, well-formed XML files next to the project, each with exactly the elements of its kind that the project contains at that time, in order, with all their texts - none missing, none left over from earlier exports. If the export fails, this is reported as an error, and if it fails or the program crashes at any point, each of the three files is, as before, complete - the previous or the new version at its path, or, after a crash, in its ".bak" - and no new incomplete file stays behind an error. The replaced version is kept as ".bak". Nothing else is touched, and the next export succeeds as if nothing had happened.',
 ['histories', 'fault_sequences', 'crash_points'],
 'all projects, all sequences of data exports from several projects by programs that keep or renew their converter, yWriter edits, storage errors and crashes at any operation',
 'Nothing tests the data files.',
 ['src/pywriter/yw/data_files.py', YW, 'src/sample/cnv_data.py'], [('three files from one project', 'src/pywriter/yw/data_files.py:_write_element_tree'), ('backup, write, roll back', f'{YW}:_write_element_tree'), ('elements to XML', f'{YW}:_build_element_tree')],
 [], ['the data files and their backups', 'the project file read by an independent reader at the time of the export'])

prop('C27', 'The translation tools never lose a translation',
 'Generating the message template contains exactly the messages of the sources. Updating the PO file of a project leaves every message of the template in it once, in order, with the translation the PO file had before, or else - when the JSON dictionary that all projects share is used - the one of the dictionary, or else empty; the dictionary then has all translations it had before and all those of the PO file, the latter prevailing; without the dictionary it is not touched. "Complete" is returned exactly if every message has a translation and everything has been written. The compiled MO file says what the PO file says, also of PO files the programs of translators have written (multi-line entries, contexts, plural forms, comments in between; fuzzy and empty entries have no translation). '
 'If a file cannot be read or written, or the tool is interrupted or killed at any point, no translation is lost: PO file, dictionary and template are complete - the previous or the new version - at their path or, after an interruption, in the ".bak" file that also keeps each replaced version; no incomplete new file stays behind an error, nothing else is touched, and the next run does what the failed one should have done. This holds over any sequence of runs for several projects, with changes of the sources and edits by the translator in between.',
 ['histories', 'fault_sequences', 'crash_points'],
 'all sets of messages and translations, all sequences of template generations, updates with and without dictionary, edits, storage errors and crashes at any operation',
 'Nothing tests the translation tools.',
 ['src/translations.py', 'src/pgettext.py', 'src/msgfmt.py'], [('dictionary and PO file', 'src/translations.py:Translations, main'), ('template', 'src/pgettext.py:PotFile, main'), ('MO file', 'src/msgfmt.py:make')],
 [], ['de.po, de.json, messages.pot and their backups'])

prop('C28', 'A built application behaves as the modular one',
 'Applications are distributed as one script that the inliner builds from the application\'s source and the modules of the package it imports (directly or indirectly, in any order). Provided that the sources follow the documented conventions (docs/conventions.md), the script is complete - it imports nothing from the package - and does in every run exactly what the modular application does: for every project, document, sequence of actions, storage error and crash it carries out the same storage operations in the same order, shows the same messages and leaves the same files. Docstrings of the modules are left out, everything else - multi-line strings, imports within functions, the first line of the application - is kept. The sample applications of the repository, modular and built, carry out the conversion they stand for and show its result. '
 'If the build fails (storage error, crash at any point), the script that was there before is still there, no incomplete script and no incomplete copy of a module takes its place, and the next build makes the complete script. If copies of the modules are requested, exactly the modules used are copied, and files that are already there are not overwritten; nothing else is touched.',
 ['histories', 'fault_sequences', 'crash_points'],
 'all applications and packages that follow the conventions, all runs of the built application (conversions, editing, settings, main window, data files), all sequences of builds, storage errors and crashes',
 'Nothing tests the inliner; the tests run the modules, never a built script.',
 ['src/inliner.py', 'docs/conventions.md', 'src/pywriter/**', 'src/sample/*.py'], [('building', 'src/inliner.py:inline_module, run'), ('names of all modules in one namespace', 'src/pywriter/**')],
 [], ['the built script', 'copies of the modules'])

# ---- properties for which deterministic simulation is not the right instrument
prop('C31', 'Word and letter counts match what yWriter counts',
 'For every scene text the word and letter counts shown in exported lists follow the documented counting rules (markup and comments excluded, dashes as separators).',
 ['inputs'], 'all scene texts', 'Tests count a few sample texts.',
 ['src/pywriter/model/scene.py'], [('regular expression based counting', 'src/pywriter/model/scene.py:sceneContent setter')])
prop('C32', 'Text markup survives the conversion in both directions',
 'Bold, italics, comments, footnotes, quotations, lists and language markup in any combination are converted between yWriter and document notation without changing which characters they apply to.',
 ['inputs'], 'all marked-up texts', 'Tests convert a few fixed samples.',
 ['src/pywriter/odt_w/odt_writer.py', 'src/pywriter/odt_r/odt_parser.py', 'src/pywriter/odt_r/odt_r_formatted.py'], [('replacement tables and SAX handler', 'src/pywriter/odt_w/odt_writer.py; src/pywriter/odt_r/odt_parser.py')])
prop('C35', 'Opening the new document passes its path safely to the desktop',
 'Opening a converted file starts the default application for exactly that file for every path, without the path being interpreted by a command shell.',
 ['inputs'], 'all file paths', 'Nothing tests opening documents.',
 ['src/pywriter/file/doc_open.py'], [('os.startfile / xdg-open', 'src/pywriter/file/doc_open.py:open_document')])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
for p in P:
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
print(len(P))
