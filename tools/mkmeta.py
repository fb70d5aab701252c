#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so they stay in step."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sim')); sys.dont_write_bytecode = True
import build
P = []; NA = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), na=None, note=''):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state], 'mechanism': [dict(zip(('name', 'where'), m)) for m in mech], 'observe_at': list(observe), 'hook_needed': None}})
    NOTE[id] = note
    if na: NA.append({'property': id, 'reason': na})
NOTE = {}
DB = ['src/db.cc', 'include/crefl/util.h', 'src/model.cc']
T = 'The tests compile some fifty small headers and dump the result; they never '

prop('C01', 'Saved metadata loads back identical',
 'Saving a reflection database to memory or to a file and loading it again, in this process or another, gives the same declarations, names, references and root, whatever sequence of building, editing, saving and loading came before. The size announced before saving is exactly the number of bytes written, and saving what was loaded gives the same bytes. A destination buffer that is too small is refused and nothing is written outside it.',
 ['histories', 'inputs', 'fault_sequences'], 'every history of creating, growing, editing, saving, loading and destroying databases with at least one declaration, any sizes and values, with I/O errors and process restarts between',
 T + 'compare a loaded database with the saved one, and cover one fixed history (save once, load once, exit).', DB,
 [('image writer and reader', 'src/db.cc'), ('builtin/user split of names and declarations', 'src/db.cc crefl_db_size, src/model.cc crefl_db_defaults')], [('database image', 'header, user declarations, user names', 'src/db.cc')], ['load and save entry points', 'bytes on disk'])
prop('C02', 'I/O failures are always reported',
 'When opening, reading, writing, closing or sizing the file fails or comes up short, saving and loading report failure to the caller; when nothing fails they report success, and a save that reported success left exactly the full image in the file. No file handle stays open after either.',
 ['fault_sequences', 'inputs'], 'every sequence of failing, short or refused system calls, full disks and files changing size while read, for any database',
 T + 'inject an I/O error.', ['include/crefl/util.h', 'src/db.cc'], [('file helpers', 'include/crefl/util.h crefl_read_file, crefl_write_file'), ('propagation', 'src/db.cc crefl_db_read_file, crefl_db_write_file')], [], ['return values', 'bytes on disk', 'open file handles'])
prop('C03', 'A cut-short save is never accepted',
 'If a save is interrupted at any point - the process killed, the disk full, power lost keeping any leading part of what was written - loading what is left is refused unless the file is the complete image. A refused load leaves the database it was aimed at exactly as it was, still usable, and a later load into it of a complete file succeeds.',
 ['crash_points', 'fault_sequences', 'histories'], 'every crash point inside a save, every prefix of the image surviving, every later history of loads into fresh or used databases',
 T + 'interrupt a save or load a partial file.', DB, [('size checks of the image', 'src/db.cc crefl_db_read_mem'), ('load into scratch, then swap', 'src/db.cc')], [], ['load verdict', 'content of the destination database'])
prop('C04', 'Damaged metadata cannot corrupt memory',
 'Loading any bytes at all - damaged at rest or while being read - either fails, leaving the destination unchanged, or yields a database whose references all stay inside it and whose names are all terminated; no memory outside the given bytes is touched and the verdict depends only on the bytes; bytes that do not begin with the format\'s mark are refused.',
 ['inputs', 'fault_sequences'], 'every byte string as an image, including every damaged version of a genuine one',
 T + 'load anything but files just written by the plug-in.', ['src/db.cc'], [('validation on load', 'src/db.cc crefl_db_read_mem')], [], ['load verdict', 'references and names of the loaded database', 'memory accesses'])
prop('C05', 'Merging keeps every declaration intact',
 'The archive made by merging several databases holds one source per input, in the given order, and each lists the same declarations, in order, with the same names, types, properties, values and attributes as the input did, following shared definitions. Identical definitions from different inputs are stored once, builtin types are not stored again, and the inputs are not changed.',
 ['histories', 'inputs'], 'every set and order of inputs, overlapping or conflicting definitions, merged results merged again, any history of earlier merges in the process',
 'Tests merge nothing; the samples merge two fixed files and compare nothing.', ['src/link.cc', 'include/crefl/hashmap.h', 'src/sha256.cc', 'include/crefl/link.h'], [('hash-consed copy', 'src/link.cc crefl_copy_node, crefl_link_merge'), ('seen-set', 'include/crefl/hashmap.h')], [], ['the merged database', 'the inputs after the merge'])
prop('C06', 'Type queries survive save, load and merge',
 'Width, field offsets, field, constant and parameter lists, values, counts and attributes answered for a declaration are the same for a freshly built database, after saving and loading it, and for the same declaration inside a merged archive, whatever else the process did in between.',
 ['histories', 'inputs'], 'every history of building, saving, loading, merging and querying, for randomly generated families of types', T + 'query a type; the samples query one struct in one history.', ['src/model.cc', 'src/types.cc', 'src/link.cc', 'src/db.cc'], [('type queries', 'src/model.cc'), ('merge copies', 'src/link.cc')], [], ['results of the query functions'])
prop('C07', 'Equal declarations hash equal, others differ',
 'Within and across databases, two declarations get the same identity hash exactly when their kind, name, properties, quantity, attributes and everything they refer to are the same, recursive types included, wherever they stand in the database and whatever was hashed before.',
 ['histories', 'inputs'], 'every pair of declarations of databases built through the compiler or the API, in any position and any order of scans, at any growth of the index',
 'Tests print hashes in no stable test and compare none.', ['src/link.cc', 'src/sha256.cc'], [('Merkle hash of a node', 'src/link.cc crefl_hash_node_sum'), ('hash cache', 'src/link.cc crefl_entry_ref')], [('index entries', 'cached hash and full name per declaration', 'src/link.cc')], ['hash of each index entry'])
prop('C08', 'The command-line tool tells the truth',
 'A merge or emit run that exits with success left exactly the complete result of its inputs in the output file, and a dump or statistics run that exits with success printed the complete listing; a run whose inputs cannot be read as valid metadata, or whose output or listing cannot be written in full, exits with failure. Inputs are never modified, and running again after an interruption gives the same bytes as an undisturbed run.',
 ['fault_sequences', 'crash_points', 'schedules', 'inputs'], 'every failing, short or interrupted system call in every tool command, missing, cut or damaged inputs, and other tool processes running interleaved on other outputs',
 'Tests run the tool once per command on good files with a working disk.', ['tool/crefltool.cc', 'src/db.cc', 'src/link.cc', 'include/crefl/util.h'], [('command handlers', 'tool/crefltool.cc do_merge, do_emit, do_dump, do_stats')], [], ['exit status', 'output file bytes', 'stdout'])
prop('C09', 'Streams of encoded values read back unchanged',
 'Any sequence of values written with the ASN.1, variable-length and compressed-float encoders into a buffer (object identifiers also as text) reads back in order as the same values, each taking exactly the announced number of bytes, with the same bytes and verdicts from the by-pointer and the by-value form; ASN.1 contents are the bytes X.690 assigns to the value, or an equivalent it allows. A value outside an encoding\'s documented range, or one that does not fit in the space left, is refused without writing outside the buffer. (A NaN reads back as a NaN.)',
 ['histories', 'inputs', 'fault_sequences'], 'every interleaving of writers and readers of all codecs over shared buffers, any value, any amount of space left',
 'No test checks a round trip except one of compressed 128-bit-random floats; the benchmark prints but does not judge.', ['src/asn1.cc', 'include/crefl/buf.h', 'include/crefl/bits.h'], [('encoders and decoders', 'src/asn1.cc'), ('bounded cursor', 'include/crefl/buf.h')], [], ['decoded values', 'cursor offsets', 'buffer bytes'])
prop('C10', 'Decoders are safe on damaged input',
 'Reading a value from any bytes - truncated, damaged or hostile, at any position of a buffer - ends with success or failure, touches no memory outside the buffer and the caller\'s destination, and leaves the cursor inside the buffer; behind the end of the buffer nothing is read or written; on success the value is the one the bytes denote and the cursor stands exactly behind the announced contents. A strictly shortened encoding of a value is always refused, and the by-pointer and by-value readers agree.',
 ['inputs', 'fault_sequences', 'histories'], 'every byte string, every truncation and damage of a genuine stream, every order of readers',
 'No test decodes anything malformed.', ['src/asn1.cc', 'include/crefl/buf.h'], [('bounds checks of the cursor', 'include/crefl/buf.h'), ('length checks', 'src/asn1.cc')], [], ['verdicts', 'cursor offsets', 'memory accesses'])
prop('C13', 'Digests do not depend on how data arrives',
 'The SHA-224 and SHA-256 digest of a message is the standard digest of its bytes, however the message is split into pieces and however many other digests are being computed in between, also by other threads with their own states.',
 ['schedules', 'histories', 'inputs'], 'every message, every split, every interleaving of several digest computations', 'No test computes a digest of known data.', ['src/sha256.cc', 'include/crefl/sha256.h'], [('block buffering and padding', 'src/sha256.cc')], [('digest state', 'partial block and bit count', 'include/crefl/sha256.h')], ['digest bytes'])
prop('C14', 'The hash table behaves as a map',
 'After any sequence of insertions, lookups (by references to its own entries too), erasures, clears, copies, moves and iterations the hash table holds exactly the entries of an ordinary map given the same operations, each visited exactly once by iteration; two tables compare equal exactly when they hold the same entries; copies are independent of the original; and destroyed tables leave no memory behind.',
 ['histories', 'inputs'], 'every operation sequence, any key distribution including heavy collisions, any initial size and growth point', 'No test uses the hash table directly.', ['include/crefl/hashmap.h'], [('open addressing, bitmap states, growth', 'include/crefl/hashmap.h')], [('slot states', 'available, occupied, deleted', 'include/crefl/hashmap.h')], ['lookup results', 'iteration', 'size'])
prop('C15', 'Listing calls report the true count and never overrun',
 'Each listing query (fields, constants, parameters, offsets, sources, declarations, types, functions) reports the number of elements the declaration has when asked without an array, and with an array of any capacity writes the elements in declaration order and never more than the capacity. Asking a declaration of another kind is refused.',
 ['histories', 'inputs'], 'every declaration of every generated, loaded or merged database, every capacity from zero to beyond the true count, changing databases between the two calls', T + 'call a listing with a wrong or small capacity.', ['src/model.cc'], [('two-phase listing loops', 'src/model.cc')], [], ['counts and arrays returned'])
prop('C16', 'Declarations keep their identity as the database grows',
 'Handles, names and values obtained from a database keep denoting the same declaration with the same content while more declarations and names, copies of its own names included, are added to it or to other databases, and every new declaration starts empty; builtin types are found under the same identity in every database.',
 ['histories', 'inputs'], 'every interleaving of growth, editing and lookups in several databases, every growth boundary, any content of fresh memory', T + 'grow a database past its first few boundaries while holding handles.', ['src/model.cc', 'src/types.cc'], [('growth by reallocation', 'src/model.cc crefl_decl_new, crefl_name_new'), ('builtin table', 'src/types.cc')], [('declaration and name arrays', 'grown by doubling', 'src/model.cc')], ['node content through handles'])
prop('C17', 'Dumps depend only on the database and format',
 'The listing and the statistics printed for a database are the same bytes whatever was dumped, merged, scanned or loaded in the process before, and the same for a database and its saved-and-loaded copy; every declaration from the root on gets exactly one line, carrying its own numbers, kind and name, its properties, the kind and name of what it refers to and, in the formats that show them, its identity hash and its full name (for an alias, those of its target), each cut to its column; and printing one row by itself gives that line.',
 ['histories', 'inputs', 'configurations'], 'every history of dumps in every format over several databases, with any fresh-memory content', 'Tests compare one dump of one database per process.', ['src/dump.cc', 'src/link.cc'], [('row formatting', 'src/dump.cc'), ('shared format and index state', 'src/dump.cc')], [('current format and index', 'process-wide', 'src/dump.cc')], ['printed text'])
prop('C19', 'The ASN.1 lister survives any file',
 'For any file content the ASN.1 listing tool ends by itself without touching memory outside the file\'s bytes; it exits with success only if the file could be read completely and is a well-formed sequence of elements, each of which it then listed once, in order, with its own offset, length and nesting depth, and the listing could be printed in full. It succeeds only when given exactly one file to dump. A readable file of well-formed universal elements nested no deeper than 200 levels is listed with success.',
 ['inputs', 'fault_sequences'], 'every file content, well-formed, truncated, damaged or hostile, under failing or short reads', 'No test runs the tool.', ['tool/asn1tool.cc', 'src/asn1.cc', 'src/oid.cc'], [('recursive listing', 'tool/asn1tool.cc read_asn1')], [], ['exit status', 'printed text', 'memory accesses'])
prop('C20', 'Independent work in several threads does not interfere',
 'Threads that each use only databases, indexes, buffers, digests and hash tables of their own get the same results as if each had run alone, whatever the interleaving, for building, saving, loading, querying, hashing, merging, encoding, decoding and digesting.',
 ['schedules', 'histories'], 'every interleaving, at basic-block granularity, of two to four threads with separate objects', 'Every test is single-threaded.', ['src/model.cc', 'src/db.cc', 'src/link.cc', 'src/asn1.cc', 'src/sha256.cc', 'src/types.cc'], [('no shared mutable state outside dumping', 'src/*.cc')], [], ['results of each thread'])
prop('C21', 'Running out of memory never corrupts results',
 'When an allocation fails at any point the operation either reports failure, raises, or ends the process; it never reports success with a wrong result, never writes a wrong file and reports success, and never changes a file it was only reading.',
 ['fault_sequences', 'histories'], 'every allocation of every operation failing, once or from then on, within every history', 'No test makes an allocation fail.', ['src/model.cc', 'src/db.cc', 'src/link.cc', 'include/crefl/hashmap.h', 'src/buf.cc'], [('fail-stop use of allocation results', 'src/model.cc, src/link.cc')], [], ['results', 'files', 'process end'])
prop('C23', 'Merging is reproducible',
 'Merging the same inputs under the same output name gives byte-for-byte the same archive in any process, after any other work, and wherever memory happens to be; an input loaded from its saved image merges to the same archive as the original.',
 ['histories', 'configurations', 'schedules'], 'every history of other work before the merge, fresh process or used, any heap content', 'No test merges twice.', ['src/link.cc', 'src/model.cc', 'include/crefl/hashmap.h'], [('traversal order fixed by the inputs', 'src/link.cc crefl_link_merge')], [], ['bytes of the merged database'])
prop('C24', 'Full names lead from the source to the declaration',
 'After scanning a database every declaration reachable from its root has a full name: the names of the declarations on a path that leads to it by listing or reference from a top-level declaration of its source, joined by ::, where unnamed declarations, pointers and arrays contribute nothing and the source and archive are left out. The names are the same whenever a database of the same content is scanned, whatever was scanned before and however the index grew.',
 ['histories', 'inputs'], 'every declaration of every built, edited, loaded or merged database, any order of scans, every growth of the index', 'Tests print full names in no stable test.', ['src/link.cc'], [('full names in the index', 'src/link.cc crefl_node_name, crefl_node_hash, crefl_entry_name_new')], [('index names', 'name table grown by doubling', 'src/link.cc')], ['full name of each index entry'])
prop('C25', 'Destroyed objects leave nothing behind',
 'Once the databases, indexes, buffers and tables that a program made are destroyed, no memory and no file handle of theirs remains, also when operations in between failed because of I/O errors: repeating the same work in one process any number of times does not grow it.',
 ['fault_sequences', 'histories'], 'every program over the library, every failing, short or refused system call in it, repeated any number of times', 'Tests run one operation per process and count nothing.', ['src/model.cc', 'src/link.cc', 'src/db.cc', 'src/dump.cc', 'src/buf.cc', 'include/crefl/hashmap.h', 'include/crefl/util.h'], [('paired construction and destruction', 'src/model.cc, src/link.cc, src/buf.cc')], [], ['allocated blocks', 'open file handles'])
prop('C26', 'Answers follow from the stored declarations',
 'At every point of a history the answers about a declaration follow from its current content and that of what it refers to. A kind test holds for its own kind only; targets, element, member and constant types, counts, values and addresses are those stored, and none when asked of another kind. The width of an array is count times element width, of a typedef, qualified type or field that of its target, of a builtin, enumeration, set or pointer its stored width rounded up to its alignment (the power of two not above it - for complex types not above half of it -, at most 16 bytes; one byte for bool); each struct field lies at the first multiple of its type\'s alignment behind the previous one, and struct and union widths are the smallest multiples of the largest alignment that hold the members. Bit-fields and packed or aligned declarations are excepted.',
 ['histories', 'inputs'], 'every declaration of every database after any history of building, editing, growing, saving, loading, restarting and merging, by any order of questions', T + 'ask about more than a handful of types, and never after an edit.', ['src/model.cc', 'src/types.cc'], [('kind tests and accessors', 'src/model.cc crefl_is_*, crefl_*_type'), ('layout', 'src/model.cc _type_pad, crefl_struct_fields_offsets')], [], ['answers of the type queries'])
prop('C27', 'A compile that succeeds left complete metadata',
 'When a compiler run with the plug-in exits with success, the file named for the output holds exactly the complete metadata of that source - the bytes any undisturbed run writes, whatever was compiled before in the same process - and a listing asked for is the complete listing of that metadata. When the file or the listing could not be written in full, or the plug-in arguments are wrong, the run exits with failure. A run touches no file but its output, and repeating an interrupted run gives the same bytes as an undisturbed one.',
 ['fault_sequences', 'crash_points', 'histories', 'programs'], 'every C source of the supported subset, every failing, short or refused system call and full disk, every crash point while the metadata is written, any order of compiles in one process or several',
 'The tests compile fifty fixed headers once each on a working disk.', ['src/reflect.cc', 'src/db.cc', 'include/crefl/util.h'], [('plug-in arguments and output', 'src/reflect.cc ReflectAction'), ('image writer', 'src/db.cc')], [('database under construction', 'one per source file', 'src/reflect.cc')], ['exit status', 'output file bytes', 'printed listing'])
prop('C30', 'Metadata describes the compiled source',
 'The metadata the plug-in emits for a C source lists every struct, union, enum, typedef, variable and function declared at file scope, and every member and nested type inside them, in source order with its name, kind and attributes (deprecated, unused, used, pure, packed, warn_unused_result, always_inline, alias, aligned and annotate, in order, with their values); fields, typedefs, variables, parameters and results with their type - aliases resolved, with every const, volatile and restrict, pointer and array count, referring to the listed definition also where it stands later in the source - bit-fields with their width, enumerations with their width and constants with their values, functions with static, inline, noreturn and linkage, variables with static (not thread) storage duration and linkage, the source under the name of its file. The same holds for the source inside a merged archive. (Incomplete types and functions behind pointers are described as void; types declared inside functions may be listed as well; vectors, atomics and types declared in parameter lists or expressions are left out of this statement.)',
 ['programs', 'histories', 'fault_sequences'], 'every translation unit of the supported C subset, of any size, compiled in any order with others in one process, after interrupted and failed runs, loaded and merged in any combination', 'Fifty fixed headers of a few declarations each are compared.', ['src/reflect.cc', 'src/model.cc', 'src/link.cc'], [('AST visitor', 'src/reflect.cc ReflectVisitor'), ('type descriptions', 'src/reflect.cc get_intrinsic_type')], [('declaration numbers by AST node', 'idmap', 'src/reflect.cc')], ['emitted file', 'merged archive'])
prop('C31', 'Computed layout equals the compiler\'s',
 'For every type of a compiled C source that has no bit-fields and is not packed or specially aligned, the width, and for structs the offset of every field and the total, computed from the emitted metadata are those the compiler gives the type on x86-64 - after loading the metadata and for the same type inside a merged archive.',
 ['programs', 'histories', 'fault_sequences'], 'every such type of every translation unit of the supported C subset, with any nesting, arrays, unions, anonymous members and forward references, loaded and merged in any combination and after interrupted runs', 'The samples print offsets of one struct; no test compares a layout.', ['src/model.cc', 'src/reflect.cc', 'src/types.cc'], [('width and offset computation', 'src/model.cc _type_pad, crefl_struct_fields_offsets, crefl_type_width'), ('member description', 'src/reflect.cc VisitFieldDecl')], [], ['width and offset queries'])
prop('C32', 'Object identifier names match the registry',
 'Looking up the description of an object identifier gives its registered name, and nothing for an identifier that is not in the table.',
 ['inputs'], 'every object identifier', 'No test looks one up.', ['src/oid.cc'], [('static table', 'src/oid.cc')], [], ['returned string'],
 na='A constant table lookup: correctness is a fact about the table, which no schedule or fault can influence; the registry it would be compared with is not in the repository. Its lazily built map is shared state documented as not thread-safe.')

LEVEL = 'Seeded search, not proof: every explored run of the real code under the simulator satisfied the property; unexplored schedules, histories and faults may not. Trusts the simulator core (disk, allocator, scheduling stand-ins), the reference models in sim/*.{h,cc}, AddressSanitizer and the compiler.'
def main():
    open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(p) + '\n' for p in sorted(P, key=lambda p: p['id'])))
    na = list(NA); have = {x['property'] for x in na}
    checks = []
    for p in sorted(P, key=lambda p: p['id']):
        i = p['id']
        if i in build.CHECKS:
            checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                           'technique': 'deterministic simulation with fault injection: seeded search, reference model, exact replay, minimised plans', 'level': 'exploration', 'level_note': (NOTE[i] + ' ' if NOTE[i] else '') + LEVEL})
        elif i not in have: na.append({'property': i, 'reason': 'No check yet.'})
    json.dump({'version': 1, 'setup_cmd': 'python3 sim/build.py ' + ' '.join(sorted(set(build.CHECKS.values()))), 'checks': checks, 'not_applicable': na,
               'notes': 'No hooks in /repo: seams are symbol redirection and libc interposition at link time (see DESIGN.md).'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
main()
