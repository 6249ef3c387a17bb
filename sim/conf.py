"""Budgets and descriptions of the checks (no code under test is needed to read this)."""

QUICK = dict(C01=1600, C02=1600, C03=2400, C04=1600, C05=800, C06=1200, C07=3000, C08=1800, C09=4000, C10=2000, C11=1600, C12=1400, C13=1800, C18=4000, C14=2000, C15=2000, C21=12000, C16=6000, C20=6000, C17=3000, C19=2000, C22=6000, C23=3000, C24=8000, C25=3000, C26=4000, C27=8000, C28=3000)
FACTOR = 20


def runs(prop, tier):
    return QUICK[prop] * (1 if tier == 'quick' else FACTOR)


def stubs(prop):
    if prop == 'C22':
        return STUB + ['tkinter (stand-in that keeps titles, labels, menu entries and geometry and runs scripted dialogs)']
    return STUB


def rule(prop):
    return ('Run i of a property is the plan generated from hash(VERIF_SEED, property, i): projects, documents, users\' edits, programs, conversions, answers, acts of other programs '
            'and faults at positions of a recorded fault-free execution; evaluations counts executed plans, distinct_nontrivial the distinct states reached (see distinct_states_measure).')


MEASURE = dict(
    C14='distinct tuples (document type, set of kinds of edits since its export, number of exported documents in use, outcome of the import)',
    C16='distinct tuples (load or save, how, outcome, faults fired, locked or not, object state before, file changed or not)',
    C17='distinct tuples (document type, shape of the edited document: dividers, headings, texts in order)',
    C19='distinct interleavings (order of the storage operations of the programs) with the kinds of conversions',
    C21='distinct tuples (read or write, settings held to be possible, faults fired, result) and interleavings of two programs',
    C22='distinct tuples (way of opening, result, answer, faults fired, errors shown, dialog choice, versions seen meanwhile, state before)',
    C25='distinct tuples (operation and class of file at which the power failed, kinds of contents lost by class of file)',
    C28='distinct states of the repeated runs (measure of their check); of builds: (result, with copies or not, faults fired, script there before, numbers of modules)',
    C27='distinct tuples (tool, with dictionary or not, result, faults fired as (kind, operation, class of file), which files exist)',
    C26='distinct tuples (outcome, faults fired as (kind, operation, class of file), which kinds of elements exist, number of data files)',
    C24='distinct tuples (document type, structure of the project: types and levels of its chapters, types and export flags of their scenes in order)',
    C23='distinct structures of the documents (outline or not; parts, chapters, scenes, numbers of lines)')
MEASURE['C15'] = MEASURE['C14']
MEASURE['C20'] = MEASURE['C16']


def measure(prop):
    return MEASURE.get(prop) or 'distinct tuples (kind of conversion, document type, outcome, faults fired as (kind, operation, class of file), user answer, asked or not, target changed or not)'


REAL = ['all modules of /repo/src/pywriter that take part in a conversion (converter, factories, file classes, ODF packing and unpacking, yw7 reading and writing, splitter, ui base classes), loaded from the working tree into simulated programs',
        'CPython zipfile, shutil, tempfile, io buffering, xml parsers, configparser, os.path on top of the simulated system calls']
STUB = ['storage (in-memory file system with fault injection behind open/os/io)', 'clock, temporary names, directory order, locale, process id', 'user dialogs (scripted answers)', 'yWriter (independent reader/writer of .yw7: ywstub)',
        'the office program (independent editor of .odt/.ods: docs)', 'scheduler of programs']
