"""What each check explores; goes into the evidence files."""
LIB = 'src/{model,db,hash,link,dump,...}.cc and include/crefl/*.h compiled from the working tree (g++ -O1, AddressSanitizer, basic-block trace), unmodified'
STUB = 'disk and system calls (in-memory files, injected faults), stdio buffers on top of it (fopencookie), allocator failures and fill pattern, process exit/abort/kill, scheduling and locks, clocks, process ids, environment and randomness'
META = {
 'C01': dict(rule='A seed generates a plan: 4 to 40 operations (create, grow, edit, save to memory/file, load, destroy) over several databases with random names, references and values, optionally with injected I/O faults and kills; each save and load is compared with an independent model and an independent decoder.', real=[LIB], stub=[STUB]),
 'C02': dict(rule='A seed generates saves and loads of random databases with 1 to 5 injected faults (failing or short open/read/write/close/fstat/allocation, full disk, files shrinking while read).', real=[LIB], stub=[STUB]),
 'C03': dict(rule='A seed generates saves interrupted by kills inside open/write/close, failing writes and full disks, then power loss and cuts at arbitrary bytes, then restarts and loads, into fresh and into used databases.', real=[LIB], stub=[STUB]),
 'C04': dict(rule='A seed generates images of random databases, damages their bytes at rest or while being read (bit flips, zeroed ranges, wild references and counts, truncation, growth), and loads them.', real=[LIB], stub=[STUB]),
 'C16': dict(rule='A seed generates interleaved growth, editing, saving and loading of several databases with handles taken and used later, over random growth boundaries and heap fill patterns.', real=[LIB], stub=[STUB]),
 'C05': dict(rule='A seed generates a family of C types, several translation units using overlapping or varied versions of it, and a history of merges (also of loaded and of merged databases); each archive is walked in lock step with its inputs.', real=[LIB], stub=[STUB]),
 'C06': dict(rule='A seed generates types and a history of building, saving, loading and merging; every query is asked of the same declaration in each form of the database.', real=[LIB], stub=[STUB]),
 'C07': dict(rule='A seed generates several databases with equal, nearly equal and different declarations in different positions, scanned in different orders; hashes are compared with interned structural identity.', real=[LIB], stub=[STUB]),
 'C23': dict(rule='A seed generates inputs and merges them at several points of a history and in fresh processes with different heap content; archives must be byte-identical.', real=[LIB], stub=[STUB]),
 'C09': dict(rule='A seed generates interleaved writing, reading and shipping of values of 28 encodings over up to three buffers of random size (so that writers meet every amount of room left), with boundary-heavy values; every written byte range is decoded by an independent decoder and read back by both forms of the library reader.', real=[LIB], stub=[STUB]),
 'C10': dict(rule='A seed generates genuine streams, then damages bytes, replaces whole buffers by noise, cuts encodings short, and reads any kind at any position with any length and destination size; accepted values are compared with an independent decoder.', real=[LIB], stub=[STUB], assume=['compressed floats have no outside specification: for damaged ones only safety, position and agreement of the two readers are checked']),
 'C08': dict(rule='A seed generates input images (good, missing, cut, with a damaged header), then runs of the whole tool as simulated processes (merge, emit, eight dumps, statistics, wrong commands), some interleaved at basic-block granularity, with faults aimed at individual runs (failing, short or refused calls, full disk, kills at system calls or at any step); every successful run is compared with an undisturbed one and with independent decoders; killed and failed runs are repeated.', real=[LIB, 'tool/crefltool.cc, unmodified, each run in its own copy of the program image'], stub=[STUB], assume=['writing to standard output does not fail']),
 'C17': dict(rule='A seed generates databases and a history of listings in nine formats, saved-and-loaded copies, merges, scans, refused loads, restarts and changes of fresh-memory content; every listing of the same image and format must be the same text, and is read back line by line against the database.', real=[LIB, 'tool/crefltool.cc'], stub=[STUB]),
 'C19': dict(rule='A seed generates well-formed nested element trees, noise, and files damaged byte by byte, and lists them with the whole tool as a simulated process under read faults; verdict and every printed line are compared with an independent reader.', real=[LIB, 'tool/asn1tool.cc'], stub=[STUB], assume=['class and primitive/constructed disagreeing with the tag number is outside the statement', 'writing to standard output does not fail']),
 'C13': dict(rule='A seed generates messages (lengths around block and padding boundaries), splits them into pieces at odd addresses, and advances several digests in turn in one thread and in two to four preempted threads, with contexts reused; digests are compared with an independent implementation. One scripted message of more than 512 MB.', real=['src/sha256.cc (instrumented, and an uninstrumented copy for the very long message)'], stub=['scheduling']),
 'C14': dict(rule='A seed generates histories of insertions, lookups, erasures, clears, copies, moves, assignments (also to itself), comparisons and iterations over up to four tables of seven instantiations (identity, colliding, constant, mixing and shifted hashes, a struct key), initial sizes from 1 to 64, with failing allocations; results are compared with std::map.', real=['include/crefl/hashmap.h, instantiated in sim/shim_misc.cc'], stub=['allocator failures and fill pattern']),
 'C15': dict(rule='A seed generates databases (built, reloaded, merged) and asks every listing of declarations of every kind for its count and with arrays of 0 to n+3 elements, also with the database growing between the two calls; results are compared with the list in the database, arrays are exactly sized under AddressSanitizer.', real=[LIB], stub=[STUB]),
 'C20': dict(rule='A seed generates a program of one to ten operations for each of two to four threads over objects of their own; each runs alone in a fresh process image, then all together in one with preemption at basic-block granularity (thread-local storage and errno per thread, short reads and writes); every step must give the same result and the same files. Part of the seeds put the switches where two threads touch the same static data (found by page protection) or right after the n-th system call.', real=[LIB, 'include/crefl/hashmap.h'], stub=[STUB]),
 'C21': dict(rule='A seed generates programs over private objects, runs each in a process with enough memory, and again in one where chosen allocations fail once, a few times or from then on; a step may end the process, raise, or report failure, otherwise its result and the files must be the same.', real=[LIB, 'include/crefl/hashmap.h'], stub=[STUB]),
 'C24': dict(rule='A seed generates several databases (built, edited, reloaded, merged) and scans them in any order with indexes of any initial room; every full name is checked against those of the declarations that list or refer to it.', real=[LIB], stub=[STUB]),
 'C26': dict(rule='A seed generates several databases and a history of in-place edits, growth, reloads, restarts and merges between which every public question about single declarations is asked; kind tests, targets, counts, values, widths and field offsets are compared with a reference layout computed from the stored nodes.', real=[LIB], stub=[STUB], assume=['bit-fields and packed or aligned types are laid out in no documented way; only declarations free of them have their width and offsets compared']),
 'C25': dict(rule='A seed generates programs of 1 to 8 operations over private objects; each is run undisturbed, then one to four times under failing and short system calls, then undisturbed again in the same process, everything destroyed after each round; allocated blocks and open files are counted.', real=[LIB, 'include/crefl/hashmap.h'], stub=[STUB]),
 'C27': dict(rule='A seed generates one to three C sources and a history of compiles in shared and fresh processes (outputs overwritten, -dump and -debug, wrong arguments) with failing, short or refused system calls, full disks and kills at system calls or at any step; each interrupted run is repeated; output and listing are compared with those of an undisturbed run and of the loaded file.', real=['src/reflect.cc compiled with the flags of the project (its standard, llvm-config --cxxflags) plus AddressSanitizer', LIB, 'the installed clang 14 front end (libclang-cpp), in process'], stub=[STUB, 'source files (in-memory), the compiler driver (front end invoked directly on x86_64-pc-linux-gnu)']),
 'C30': dict(rule='A seed generates one to three C sources sharing a header (types of any nesting, forward references, recursion, qualifiers, attributes, bit-fields, functions, linkage and storage classes, redeclarations, K&R definitions, variable length arrays, variable argument lists, tags first mentioned in declarators, declarations inside functions, up to hundreds of declarations), compiles them in shared and fresh processes, also interrupted, then loads and merges the files in a later process; the emitted image and the archive are compared entry by entry with the generator\'s own description.', real=['src/reflect.cc compiled with the flags of the project (its standard, llvm-config --cxxflags) plus AddressSanitizer', LIB, 'the installed clang 14 front end (libclang-cpp), in process'], stub=[STUB, 'source files (in-memory), the compiler driver (front end invoked directly on x86_64-pc-linux-gnu)']),
 'C31': dict(rule='Sources and histories as for C30, mostly without bit-fields and packing; widths and offsets answered by the library for the loaded and merged files are compared with ASTContext and ASTRecordLayout of the compiler.', real=['src/reflect.cc compiled with the flags of the project (its standard, llvm-config --cxxflags) plus AddressSanitizer', LIB, 'the installed clang 14 front end (libclang-cpp), in process'], stub=[STUB, 'source files (in-memory), the compiler driver (front end invoked directly on x86_64-pc-linux-gnu)']),
}
