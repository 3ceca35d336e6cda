#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
DS = 'pyuff/datasets/dataset_%s.py'
W, R, X = 'pyuff/pyuff.py:UFF._write_set', 'pyuff/pyuff.py:UFF._read_set', 'pyuff/pyuff.py:UFF.refresh'


def ds(*ts):
    return [DS % t for t in ts]


def rw(*ts):
    m = []
    for t in ts:
        m.append({'name': 'writer of data-set %s' % t, 'where': (DS % t) + ':_write%s' % t})
        m.append({'name': 'reader of data-set %s' % t, 'where': (DS % t) + ':_extract%s' % t})
    return m


ALL = (15, 18, 55, 58, 82, 151, 164, 1858, 2400, 2411, 2412, 2414, 2420, 2429, 2467)
CORE = [{'name': 'index of a file', 'where': X}, {'name': 'writing of sets', 'where': W}, {'name': 'reading of sets', 'where': R}]
P = []


def prop(pid, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append({'id': pid, 'title': title, 'statement': statement,
              'quantifier': {'over': over.split(), 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': mech}})


prop('C01', 'Every supported data-set type is written, listed and read as itself',
     'A data-set of a supported type is written as one block of exactly that type, is listed by the file index with that type and its format (ASCII or binary), '
     'and is read back as a dictionary of that type with its contents. A type outside the supported list is never written under another type and never '
     'interpreted as one: writing it adds nothing, reading it yields only its type.',
     'inputs', 'every type number, supported or not, in single and mixed files',
     'The tests write and read only some of the 16 types and few unsupported numbers; the agreement of the two dispatches is over all of them.',
     ['pyuff/pyuff.py'], CORE)
prop('C02', 'Each written data-set is exactly one well-framed block',
     'Writing one data-set appends exactly one start tag line (-1 in columns 5-6), one type line, records of at most 80 columns (when the texts fit their fields), none of which another reader '
     'could take for a tag, and one end tag line; the former content of the file is a byte-for-byte prefix. Several data-sets append the concatenation of their blocks.',
     'inputs', 'every type, every shape of its data and every value that fits its column',
     'Tests read back with the same package a few files; they never look at the framing of blocks of all types and lengths.',
     ['pyuff/pyuff.py'] + ds(*ALL), CORE[1:2] + rw(*ALL)[::2])
prop('C03', 'Geometry and element data-sets survive writing and reading',
     'A dictionary of data-set 15, 18, 82, 2411, 2412 or 2420 that is written and read again gives every key with the same values in the same order and the same grouping, '
     'up to the precision of the documented format, for any number of nodes, traces, elements, element kinds and coordinate systems.',
     'inputs', 'all contents of these data-sets: any number of items, line-wrap residues, element descriptors, values within the documented columns',
     'Tests use one or two example files each; record wrapping and element kinds depend on counts and descriptors that the samples do not have.',
     ds(15, 18, 82, 2411, 2412, 2420), rw(15, 18, 82, 2411, 2412, 2420))
prop('C04', 'ASCII functions (data-set 58) survive writing and reading',
     'Header fields, abscissa and data of a data-set 58 written in ASCII come back with the same values for real and complex, even and uneven, single and double precision data of any length, '
     'and with the number type that was written.',
     'inputs', 'all combinations of data kind, spacing and precision, any number of points',
     'Tests sample some lengths and kinds; values per record and the wrap of the last record depend on kind times length.',
     ds(58), rw(58))
prop('C05', 'Binary functions (data-set 58b) are laid out and read as declared',
     'A binary data-set 58 declares its byte order, floating point format, number of header lines and exact number of bytes, holds exactly the data values in the declared width and order, '
     'and the end tag follows directly. It is read back identically on machines of either byte order, and blocks of either byte order are read correctly.',
     'inputs configurations', 'all data kinds, spacings, precisions and lengths, on little- and big-endian machines',
     'The tests run on one byte order and few lengths.', ds(58), rw(58))
prop('C06', 'Data at nodes (data-set 55) survives writing and reading',
     'For every supported analysis type (normal mode, complex eigenvalue, frequency response, ...) a data-set 55 that is written comes back with the same analysis header, node numbers and r1..r6 values, '
     'real or complex, 3 or 6 values per node, for any number of nodes.',
     'inputs', 'all analysis types, data types, values per node and numbers of nodes',
     'Tests cover a few analysis types with one shape.', ds(55), rw(55))
prop('C07', 'Analysis data (data-set 2414) survives writing and reading',
     'A data-set 2414 with data at nodes, on elements, or at nodes on elements, of any analysis type and number of values, comes back with the same header records and the same values assigned to the same nodes or elements.',
     'inputs', 'all supported locations, analysis types, numbers of values (record wraps), nodes and elements',
     'Tests use one frequency response and one sample file per location.', ds(2414), rw(2414))
prop('C08', 'Groups (data-sets 2429 and 2467) survive writing and reading',
     'Any list of groups, including empty groups and groups with an odd number of entities, comes back in the same order with the same numbers, names, active-set fields and entity lists.',
     'inputs', 'any number of groups and of entities per group', 'Tests use one example with fixed sizes.', ds(2429, 2467), rw(2429, 2467))
prop('C09', 'Header, units, universal header and model data-sets survive writing and reading',
     'Every field of data-sets 151, 164, 1858 and 2400 that is written comes back unchanged: texts, dates and times, flags, units factors and integers.',
     'inputs', 'all values that fit the documented fields', 'Tests check one example each and not every field.', ds(151, 164, 1858, 2400), rw(151, 164, 1858, 2400))
prop('C10', 'Records follow the documented FORMAT, both written and read',
     'In every record written, each documented column range holds exactly the documented field, with at least the documented precision, so that other programs read the same values. '
     'Every block laid out as documented is read with every field recovered, an integer as an integer, whatever the exponent letter case and the line ending.',
     'inputs', 'every field of every record of every type, every shape, LF and CRLF, e/E/D exponents',
     'A round trip through the same package hides a layout that writer and reader get wrong together.', ds(*ALL), rw(*ALL))
prop('C11', 'No value spills out of its columns and full columns are read',
     'A text longer than its column never moves the fields behind it; no number outgrows its field so that its neighbours change. Numbers that fill their columns are still read as separate values.',
     'inputs', 'texts of every length, numbers of every magnitude, every field of every type',
     'Tests use short texts and numbers with blanks around them.', ['pyuff/tools.py'] + ds(*ALL), rw(*ALL))
prop('C12', 'Omitted optional keys take their documented defaults',
     'Writing a dictionary without an optional key gives exactly the record that the documented default gives, for each optional key alone and for all together; leaving out a required key is an error.',
     'inputs', 'every optional and required key of every type, alone and together', 'Tests omit only some keys.',
     ['pyuff/tools.py'] + ds(*ALL), [{'name': 'defaults', 'where': 'pyuff/tools.py:_opt_fields'}] + rw(*ALL)[::2])
prop('C13', 'prepare functions hand every argument to its own key',
     'A prepare function returns a dictionary in which every argument that was given stands unchanged under its own key, with the type number; arguments not given are absent, or None with return_full_dict=True. '
     'The dictionary can be written.',
     'inputs', 'every argument of every prepare function, alone and together, given as scalar, list or array',
     'Tests compare a few calls; a swapped or dropped argument is seen only if that argument is given with a distinguishable value.',
     ['pyuff/tools.py'] + ds(*ALL), [{'name': 'prepare functions', 'where': 'pyuff/datasets/*:prepare_*'}, {'name': 'removal of None', 'where': 'pyuff/tools.py:check_dict_for_none'}])
prop('C14', 'prepare functions reject what their documentation excludes, and only that',
     'Every argument of a prepare function that is of the wrong kind (text for number, number for text, fraction for integer) or outside a documented list of codes raises an error, and every documented value is accepted.',
     'inputs', 'every argument of every prepare function, all documented codes, their neighbours and wrong kinds',
     'Tests pass a few wrong values.', ds(*ALL), [{'name': 'argument guards', 'where': 'pyuff/datasets/*:prepare_*'}])
prop('C15', 'Derived header fields of data-set 58 agree with the data written',
     'Whatever a caller puts in the header, the ordinate data type, number of points, abscissa spacing, start, increment and byte count that a written data-set 58 declares are those of the data in the block.',
     'inputs', 'all data kinds, spacings, precisions, lengths, and any stale header value', 'Tests pass consistent headers.', ds(58), rw(58)[:1])
prop('C16', 'Reading headers only gives the same headers without the data',
     'Reading with header_only gives, for every data-set, the same keys and values as a full reading, except that the abscissa and the data of a data-set 58 are None and its data records are not interpreted.',
     'inputs', 'every type and shape, every selection', 'Tests read one header of one file.', ['pyuff/pyuff.py'] + ds(58), CORE[2:])
prop('C17', 'The index describes the file after every sequence of operations',
     'After any sequence of writes, failed writes, reads and refreshes through an object, the number, types, formats and contents of the sets that this object reports, and that a new object on the same file reports, are those in the file.',
     'histories', 'all sequences of add, overwrite, failing write, read, refresh and queries',
     'Tests write once and read once.', ['pyuff/pyuff.py'], CORE)
prop('C18', 'refresh takes over whatever is in the file now',
     'After refresh the object reports exactly the sets that the file now holds, whether the file was created, replaced, shortened, emptied or removed since; a missing file is reported as such and leaves no old sets.',
     'histories', 'all pairs of file states before and after', 'Tests do not change files under an object.', ['pyuff/pyuff.py'], CORE[:1])
prop('C19', 'Blocks are found by their tags, in every documented form and nothing else',
     'A block begins and ends at lines that hold -1 in columns 5 and 6 only, padded or not, with LF or CRLF, with or without a final line ending; text between blocks is skipped and lines of data that merely contain -1 are not tags. '
     'Every block is reported with its type, its format and its exact extent.',
     'inputs', 'all forms and near misses of tags, all placements in the file', 'The example files use one form.', ['pyuff/pyuff.py'], CORE[:1])
prop('C20', 'read_sets returns the selected sets, in order',
     'Reading all sets, one number, or a list of numbers (Python or numpy integers) returns exactly those sets in the given order, one as a dictionary and several as a list, and numbers that do not exist raise an error instead of returning another set.',
     'inputs', 'every selection over files of every number of sets', 'Tests read set 0 or all.', ['pyuff/pyuff.py'], CORE[2:])
prop('C21', 'add appends, overwrite replaces, and no other file is touched',
     'Mode add leaves every byte of the file as it was and appends; mode overwrite leaves only the sets given; reading, indexing and preparing open no file for writing. No operation creates, changes or removes any file but the one named.',
     'inputs', 'every type and mode, existing, empty and missing files, one or several sets', 'Tests look at the sets that come back, not at bytes or other files.',
     ['pyuff/pyuff.py'] + ds(58), CORE[1:2])
prop('C22', 'A write that fails adds nothing to the file',
     'When writing a data-set raises, because a value is missing or malformed or because the system reports an error at any point of the write, the file holds the blocks it held before (add) or none of the failed block (overwrite), never part of a block, and later writes and reads work.',
     'inputs fault_sequences', 'every type, every missing or malformed value, an I/O error at every operation on the file',
     'Tests have no failing writes.', ['pyuff/pyuff.py'] + ds(58), CORE[1:2])
prop('C23', 'Every file handle is closed when an operation ends',
     'No operation, whether it returns or raises, leaves a file handle open.', 'inputs fault_sequences',
     'every operation, type, failing input and point at which the system may report an error', 'A leaked handle makes no test fail.',
     ['pyuff/pyuff.py'] + ds(58), CORE)
prop('C24', 'Errors reach the caller',
     'A missing file, a missing required key, an unknown mode of writing or type of analysis, an index out of range, values or counts that cannot be written or read, a list with fewer values than the data-set has entries, and every I/O error raise an exception at the caller; none is swallowed, and no operation reports success for what it did not do.',
     'inputs fault_sequences', 'every operation, every kind of wrong input, an I/O error at every file operation', 'Tests check few failures.',
     ['pyuff/pyuff.py', 'pyuff/tools.py'] + ds(*ALL), CORE)
prop('C25', 'Texts outside ASCII keep their columns',
     'Texts are written and read as UTF-8 whatever the platform default, and the columns of a record are counted in characters: a field that follows a text with characters outside ASCII is read from its own column; in a file of another program a byte of a text that is no valid UTF-8 is read as one replaced character and keeps nothing else from being read.',
     'inputs configurations', 'every text field of every type with characters of 1 to 4 bytes, any platform encoding', 'Tests use ASCII and one platform.',
     ['pyuff/pyuff.py', 'pyuff/tools.py'], CORE)
prop('C26', "The caller's data is not changed",
     "Writing changes no array, list, nested dictionary, text or number that the caller passed; it may add defaults and derived header values to the dictionary. Preparing and converting change nothing they are given.",
     'inputs', 'every type, key and mode', 'Tests do not compare the inputs afterwards.', ['pyuff/pyuff.py', 'pyuff/tools.py'] + ds(*ALL), rw(*ALL)[::2])
prop('C27', 'Operations do not depend on earlier ones on other data',
     'What is written, read or prepared depends only on the arguments and the file: not on what was processed before in the same process, nor on what the caller did with dictionaries returned earlier.',
     'histories', 'all orders of operations on other files, objects and dictionaries beforehand', 'Tests start fresh and do one thing.',
     ['pyuff/pyuff.py', 'pyuff/tools.py'] + ds(*ALL), CORE)
prop('C28', 'Reading and writing are silent',
     'Reading, writing, indexing, preparing and converting print nothing, ask for no input and emit no warnings of their own; only functions whose purpose is to print do so (and the documented not-implemented notices of data-set 2414).',
     'inputs', 'every operation on every type', 'pytest captures the output.', ['pyuff/pyuff.py'] + ds(*ALL), CORE)
prop('C29', 'Conversion of elements to trace lines draws every quadrilateral',
     'Converting a list of data-sets gives, for each data-set 2412 with quadrilaterals and in their order, one data-set 82, numbered by its position in the list, whose trace holds the closed outline of each element, pen lifted between lines, and nothing else; the result can be written.',
     'inputs', 'lists of any data-sets with any number of quadrilaterals', 'One test file with one element list.', ds(82, 2412) + ['pyuff/pyuff.py'],
     [{'name': 'conversion', 'where': 'pyuff/pyuff.py:UFF'}])
prop('C30', 'fix_58b repairs the end tags of binary data-sets and nothing else',
     'In the repaired copy the end tag of every binary data-set follows its data directly and every other byte is the same; the original is untouched, and the copy is read as the sets that were meant.',
     'inputs', 'files with any mixture of text and binary sets, damaged or sound, LF or CRLF, any names', 'One test with one file.', ds(58),
     [{'name': 'repair', 'where': (DS % 58) + ':fix_58b'}])
prop('C31', 'Declared counts equal what the block holds',
     "Every count a block declares (points, bytes, nodes of a trace or element, entities of a group, values per node) equals what the block holds, whatever count the caller's dictionary carries where the package derives it.",
     'inputs', 'every type with counts, stale or absent counts, every size', 'Tests pass right counts.', ds(55, 58, 82, 2412, 2414, 2429, 2467), rw(55, 58, 82, 2412, 2414, 2429, 2467)[::2])
prop('C32', 'The public names are there and describe their data-sets',
     'The package exports the file class, a prepare and a structure function for every data-set type it documents, and fix_58b; a structure function returns the documented structure of its own type when asked for the text and prints that text otherwise.',
     'inputs', 'every exported name', 'Tests import a few names.', ['pyuff/__init__.py', 'pyuff/datasets/__init__.py'] + ds(*ALL), [{'name': 'exports', 'where': 'pyuff/__init__.py'}])
prop('C33', 'Copying a file through the package does not change it',
     'A data-set that the package wrote, read from its file and written again, gives the identical block; a block of another program laid out as documented, read and written again, is read as the same dictionary.',
     'inputs', 'every type and shape', 'Tests do not write what they read.', ['pyuff/pyuff.py'] + ds(*ALL), rw(*ALL))
prop('C34', 'No nan or infinity reaches a data-set 58',
     'Values of the data of a data-set 58 that are not finite are replaced by finite numbers before they are written, in all formats and modes; finite values are written unchanged.',
     'inputs', 'all data, in ASCII and binary, real and complex, even and uneven', 'One test, if any, with one format.', ds(58), rw(58)[:1])
prop('C35', 'Binary data may hold any bytes',
     'A binary data-set 58 whose data hold the bytes of a tag line, of a line ending or of a whole data-set is written, counted, listed, read, selected, extended and repaired (fix_58b) like any other; the declared number of bytes tells where its data end, and where that number is missing or wrong the file is indexed by its tags.',
     'inputs', 'all data, at every offset of the pattern within a word and within the data, alone and between other data-sets', 'No test has such data.', ['pyuff/pyuff.py', 'pyuff/tools.py'] + ds(58), CORE[:1] + rw(58))
EXTRA = os.path.join(V, 'tools', 'gen_extra.py')
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())
NA = [
    ('C80', 'Values keep all digits that their documented format has room for',
     'A number that is written and read differs from the original by at most half a unit of the last documented digit, for every magnitude, and double precision binary values are exact.',
     'inputs', 'all numbers', 'Tests compare with tolerances.', ['pyuff/tools.py'] + ds(*ALL), rw(*ALL),
     'numerical fidelity is a fact about runtime values and about the C library\'s rounding; the structural part (format precision at least the documented one, width and type of binary words) is decided under C05 and C10, the rest is out of reach of a static argument'),
    ('C82', 'Concurrent or interrupted use leaves a readable file',
     'When several processes write to one file at once, or the process is killed during a write, the file holds only complete blocks.',
     'schedules crash_points', 'all interleavings and kill points', 'Tests have one process.', ['pyuff/pyuff.py'], CORE[1:2],
     'the package promises no locking and no atomic replacement, and the partial effect of a killed write is decided by buffering and the operating system, not by the source'),
    ('C83', 'Any third-party file is read or rejected, without hanging or excessive memory',
     'Any byte sequence is either read or rejected by an exception in time and memory linear in its size.',
     'inputs', 'all byte sequences', 'Tests use well-formed files.', ['pyuff/pyuff.py'], CORE,
     'time and memory for arbitrary bytes are runtime quantities, and arbitrary bytes have no documented meaning to compare with; the documented and the near-documented forms are decided under C10 and C19'),
    ('C84', 'Texts with line breaks or tag-like content do not corrupt a file',
     'A text value that holds line breaks or looks like a tag never changes the structure of the file written.',
     'inputs', 'all texts', 'Tests use plain texts.', ds(*ALL), rw(*ALL)[::2],
     'the package documents single-line texts and validates none; which characters a text holds is a runtime fact that no part of the source bounds, so the property is an assumption of C02 rather than something to decide'),
]


def main():
    from pyan.checks import CHECKS
    ids = [p['id'] for p in P]
    missing = sorted(set(CHECKS) ^ set(ids))
    assert not missing, missing
    na = []
    for pid, title, st, over, text, why, files, mech, reason in NA:
        prop(pid, title, st, over, text, why, files, mech)
        na.append({'property': pid, 'reason': reason})
    P.sort(key=lambda p: p['id'])
    for p in P:
        for f in p['anchors']['files']:
            assert os.path.exists('/repo/' + f), f
        assert p['statement'].count('. ') <= 2, p['id']
    with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
        for p in P:
            fh.write(json.dumps(p) + '\n')
    checks = []
    for pid in sorted(CHECKS):
        c = CHECKS[pid]
        checks.append({'property': pid, 'quick_cmd': 'python3 check.py %s' % pid, 'thorough_cmd': 'python3 check.py %s --thorough' % pid,
                       'technique': c['technique'], 'level': 'other',
                       'level_note': c['note'] + ' Trusts: ' + '; '.join(c['assumptions'] or ['the models of Python in pyan/lib.py']) +
                       '. Parts of the code that the interpreter cannot follow are listed in the evidence as undecided and raise no alarm.'})
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
        json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, fh, indent=1)
        fh.write('\n')


main()
