IOF=['src/lib/io/BGEO.cpp','src/lib/io/BIN.cpp','src/lib/io/GEO.cpp','src/lib/io/MC.cpp','src/lib/io/PDA.cpp','src/lib/io/PDB.cpp','src/lib/io/PDC.cpp','src/lib/io/PRT.cpp','src/lib/io/PTC.cpp','src/lib/io/PTS.cpp','src/lib/io/RIB.cpp']
prop('C01','File extension selects the documented format codec, for reading and writing',
 'Reading, reading headers and writing choose the codec from the file name\'s extension exactly as documented (bgeo/bhclassic/itbl/atbl, geo/hclassic, pdb, pdb32, pdb64, pda, mc, ptc/ptf, pdc, prt, bin, pts for reading; the same without mc and pts but with rib for writing), looking through a trailing .gz, and an unknown extension fails without calling any codec. The codec receives the caller\'s file name and particles, the header-only flag exactly for header reads, compression exactly when it was forced or the name ends in .gz, and an error stream exactly when verbose was requested.',
 ['inputs'],'every file name, every registered extension, every combination of verbose, force-compress and header-only',
 'The tests read a handful of sample files of a few formats; a swapped or dropped table entry, or a wrong flag on one branch, only shows for names they never use.',
 ['src/lib/io/ParticleIO.cpp','src/lib/io/readers.h'],
 [('extension tables','ParticleIO.cpp readers()/writers()'),('extension extraction','ParticleIO.cpp extensionIgnoringGz/endsWithGz'),('entry points','ParticleIO.cpp read/readHeaders/write')],
 'custom dataflow query over LLVM IR: table extraction, argument-flow with path-sensitive facts',
 'Exact for the table and for the arguments at the codec calls on every path; the offsets of the extension computation are decided when it is written with rfind/substr and reported as undecided otherwise. Trusts the standard library containers.',
 observe=['Partio::read','Partio::readHeaders','Partio::write'])
prop('C03','Every way out of the library releases what it acquired, exactly once',
 'On every path through the library, including every error return of every reader and writer, each particle object, heap buffer, compression stream and lock a call acquires is released or handed to the caller exactly once, and is not used after release. No such path dereferences a pointer it has just found to be null.',
 ['inputs','fault_sequences'],'every path, including each error exit a malformed file, unsupported attribute or failing stream can select',
 'Leaks and double releases on error paths need malformed files of each format and a leak detector; the tests only read valid files.',
 IOF+['src/lib/io/ZIP.cpp','src/lib/core/Particle.cpp','src/lib/core/ParticleCaching.cpp','src/lib/core/ParticleSimple.cpp','src/lib/core/ParticleSimpleInterleave.cpp','src/lib/core/KdTree.h'],
 [('create/release pairing','all read*/write* functions'),('zlib init/end pairing','PRT.cpp, ZIP.cpp'),('unique_ptr ownership','ZIP.cpp, BGEO.cpp')],
 'path-sensitive typestate analysis over LLVM IR (ESP style)',
 'All paths of all library functions with callees inlined; loops to a fixed point; exceptions are outside (bad_alloc not modelled). Infeasible paths are pruned only through branch facts on the tracked values.',
 observe=['Partio::read','Partio::write'])
prop('C07','PDA and GEO files read back as the set that was written',
 'For every particle set, the words and values writePDA and writeGEO print are, one by one, what readPDA and readGEO take: keywords the reader waits for and the announced counts are printed, every value is a word of its own, and each attribute line gives back the attribute with its component count and type (an indexed string of a PDA file as the integer of its index). Index strings are quoted so that the reader gives back the same strings. Each component of each attribute of each particle is printed once, in table order, and read into its place.',
 ['inputs'],'every particle set written as PDA or GEO text and read back by the reader of the same format',
 'Tests convert one or two small sets with a few one-word attributes; type combinations, component counts, empty tables, strings with quotes or backslashes, and sets with only a position are not covered by any test.',
 ['src/lib/io/PDA.cpp','src/lib/io/GEO.cpp'],
 [('text writers and readers','writePDA, readPDA, writeGEO, readGEO, writeString, scanString, readGeoAttr, writeType')],
 'comparison of the regular word structure printed by the writer with the words the reader takes, over LLVM IR path summaries',
 'Not covered: the decimal rounding of numbers (6 significant digits), names with white space, streams that fail, readers meeting files of other programs. Attributes a PDA file cannot hold (another number of components than the type letter stands for) are left out by the writer. A structure outside the recognised forms is undecided.',
 observe=['Partio::write','Partio::read'])

prop('C08','Concurrent independent calls share no unsynchronised state',
 'Calls on different particle objects and files from different threads never race: every piece of library-wide mutable state (the codec tables, the particle cache, any static buffer) is only touched while one lock that guards it is held or inside a once-only initialisation, and no call relies on a C library function with hidden shared state. A lock taken is released on every path and never taken twice.',
 ['schedules'],'every interleaving of calls on distinct objects',
 'No test starts a thread; a race needs a particular interleaving of two calls.',
 ['src/lib/io/ParticleIO.cpp','src/lib/io/PDB.cpp','src/lib/core/ParticleCaching.cpp','src/lib/core/Mutex.h']+IOF,
 [('codec tables','ParticleIO.cpp readers()/writers() with initializationMutex'),('particle cache','ParticleCaching.cpp mutex'),('static buffers','BGEO.cpp skip, PDB.cpp')],
 'lockset analysis over LLVM IR with an effect summary of every non-constant global',
 'All accesses of every writable global or function-local static, all paths of every function. State reached only through the caller\'s own objects is the caller\'s to synchronise. zlib and libstdc++ are trusted to be thread safe.',
 observe=['Partio::read','Partio::write','Partio::readCached','freeCached'])
prop('C09','Cached reads share one object per file and free it with its last holder',
 'A second cached read of a file returns the object the first returned while anyone still holds it, and a failed read is not remembered. Each holder\'s release is counted exactly: the object survives until the last holder released it and is then destroyed and forgotten exactly once, so a later cached read loads the file again; releasing an object that was never cached destroys it.',
 ['histories'],'every sequence of cached reads and releases of any files',
 'The tests read one file twice; a miscount shows only in longer histories or after a failed read.',
 ['src/lib/core/ParticleCaching.cpp','src/lib/Partio.h'],
 [('cache tables','ParticleCaching.cpp cachedParticles, cachedParticlesCount'),('readCached/freeCached','ParticleCaching.cpp')],
 'path-sensitive effect analysis of the cache tables over LLVM IR',
 'Every path of the two cache functions, from each abstract state of the tables (absent, count one, count above one); the tables are recognised by their container type and key role. Trusts std::map.',
 observe=['readCached','release'])
prop('C17','Gzip streams read back exactly, damage ends them, written ones are valid',
 'Reading through the gzip layer accepts exactly streams with a gzip header (any combination of optional header fields), rewinds other files so they read as plain, hands out exactly the decompressed bytes and ends, rather than looping or overrunning its buffers, on truncated or corrupt data. A compressed file the library writes has a valid header, all the bytes written to it, and the trailing checksum and length of exactly those bytes, completed when the stream is destroyed; compression state and the underlying file are released exactly once.',
 ['inputs','fault_sequences'],'every byte stream, every sequence of read and write sizes',
 'The tests read well-formed .gz files written by gzip itself; header options, truncation and buffer-boundary cases never occur.',
 ['src/lib/io/ZIP.cpp','src/lib/io/ZIP.h'],
 [('decompressing stream buffer','ZIP.cpp ZipStreambufDecompress'),('compressing stream buffer','ZIP.cpp ZipStreambufCompress'),('header','ZIP.cpp GZipFileHeader'),('detection and rewind','ZIP.cpp Gzip_In')],
 'return-code typestate of inflate/deflate plus symbolic extents of the stream buffers over LLVM IR',
 'Every path after every return code; buffer extents as affine terms. zlib is trusted to follow its contract. Members after the first of a concatenated gzip file and the zip-archive classes are outside.',
 observe=['Partio::io::unzip','Partio::read of .gz','Partio::write with compression'])
prop('C19','Readers and writers stay inside their fixed buffers',
 'While reading any file or writing any particle set, no index selects an element outside a fixed-size array (local, member or static), no pointer walk or bulk transfer (read, write, memcpy, snprintf, string copy, zlib and stream-buffer areas) moves past the end of a local or member array or of memory allocated by the same function for it, and the size of that memory is not computed by arithmetic that can wrap on values taken from the file. A character array filled by a raw read is not used as a C string unless it was terminated.',
 ['inputs'],'every byte sequence given to the readers and every particle set given to the writers',
 'Tests use well formed files; an overrun needs a longer line, name, count or channel than any of them has.',
 IOF+['src/lib/io/ZIP.cpp','src/lib/core/ParticleSimple.cpp','src/lib/core/ParticleSimpleInterleave.cpp','src/lib/core/ParticleHeaders.cpp'],
 [('fixed arrays','line, name, header, component and compression buffers of the codecs and of ZIP.cpp'),('fresh allocations','new[]/malloc buffers filled from the file in PRT, PTC, BGEO, MC, ZIP')],
 'interval analysis with pointer offsets and extents (abstract interpretation over LLVM IR), allocation-size wrap rule, terminator dataflow',
 'Every function of src/lib. Indexes of standard containers (the attribute tables and their data) are outside, as is memory handed in by a caller. Where neither containment nor a value of the input that is left unlimited can be shown, the access is undecided and listed in the evidence.',
 observe=['Partio::read','Partio::write'])
prop('C25','Attribute handles are used only when valid and no further than their count',
 'In every codec, library function and command line tool, a handle left by an addAttribute, addFixedAttribute or attributeInfo call is used to reach values, strings or an accessor only on paths where that call cannot have failed or the handle was found valid; names that files, callers or other sets supply may already be taken. Where code uses a fixed number of components (two or more) of an attribute, the attribute was created with that many or its count was tested.',
 ['inputs'],'every file, particle set and argument list: repeated names, absent attributes, attributes of any count',
 'Tests use sets whose attributes have the usual names and counts; a failed lookup needs a duplicated name, a missing attribute or a short one.',
 IOF+['src/lib/core/Particle.cpp','src/lib/core/ParticleSimple.cpp','src/lib/core/ParticleSimpleInterleave.cpp','src/tools/partattr.cpp','src/tools/partinfo.cpp','src/tools/partconvert.cpp'],
 [('handle checks','every addAttribute/attributeInfo call of src/lib and of the tools'),('component counts','writePTC, writeGEO, writeBIN, sort, computeClustering')],
 'typestate analysis of attribute handles (path-sensitive dataflow over LLVM IR)',
 'An attribute is taken to have at least one component. Handles passed in by a caller are the caller\'s responsibility. A loop whose upper limit is not a constant is outside the component rule (the attribute\'s own count is the usual limit). partview is not analysed (it needs OpenGL headers).',
 observe=['Partio::read','Partio::write','Partio::computeClustering','partattr','partinfo'])
prop('C20','Binary primitives transfer exact bytes in the documented byte order',
 'The byte-swap primitive reverses all bytes of its operand for every operand width. The typed read and write primitives transfer exactly the operands\' sizes in operand order, big-endian forms byte-swapped and little-endian forms untouched, and writing leaves the caller\'s values unchanged.',
 ['inputs'],'every value of every operand type the library instantiates',
 'Tests read sample values whose errors cancel between reader and writer on the same machine.',
 ['src/lib/io/PartioEndian.h'],
 [('endianSwap','PartioEndian.h'),('read/write of big- and little-endian tuples','PartioEndian.h')],
 'affine byte-index analysis of each template instance over LLVM IR',
 'Every instance present in the library; instances are analysed after inlining. Host byte order is little-endian (x86-64).',
 observe=['all binary formats'])
prop('C04','Failures are reported through the caller\'s error stream, and only there',
 'Every codec and library entry point that takes an error stream copes with a null one, and whenever a read or write gives up after opening its file it has written a message to that stream when one was given. Nothing a caller can reach through read, write, cached read or clustering prints to the console on its own: stdout and stderr are only reached through the error stream the verbose flag selected.',
 ['inputs','fault_sequences'],'every failure exit of every codec, with and without an error stream',
 'Tests run with the default verbosity on valid files; a null error stream or an unreported failure needs each kind of malformed file.',
 IOF+['src/lib/io/ParticleIO.cpp','src/lib/core/ParticleCaching.cpp','src/lib/core/ParticleSimple.cpp','src/lib/io/ZIP.cpp'],
 [('error stream','readers.h: errorStream parameter of every codec'),('verbose selection','ParticleIO.cpp read/write')],
 'path-sensitive null-guard and must-report analysis plus console-effect reachability over LLVM IR',
 'All paths of every function that takes the stream; reachability by rapid type analysis with constant-argument pruning. Whether the message text is apt is not judged.',
 observe=['Partio::read','Partio::write','Partio::readCached'])
prop('C05','Files that cannot be opened or have the wrong magic are rejected',
 'Reading a file that cannot be opened returns null, and writing one that cannot be opened returns false, for every codec, plain or compressed. Every reader of a binary format with a magic number or version (bgeo, pdb, prt, pdc, bin, mc, ptc) returns null when the file does not carry it, whatever follows.',
 ['inputs','fault_sequences'],'every codec; every file whose magic differs',
 'Tests open one missing file; per-format magic checks are never exercised.',
 IOF,[('open checks','every read*/write*'),('magic checks','BGEO, PDB, PRT, PDC, BIN, MC, PTC readers')],
 'path-sensitive forced-branch analysis over LLVM IR: no success return is reachable under the assumed failure',
 'Each codec is analysed with the open result, respectively the magic comparison, assumed to fail. Failures later in a file (truncation) are C18\'s.',
 observe=['Partio::read','Partio::write'])
prop('C18','Reading any file ends',
 'Reading any file, however truncated, malformed or hostile, ends: each loop of every reader and of the gzip layer is bounded by a count fixed before it starts, walks a finite container or string, or makes progress through the input and leaves when the input ends or fails.',
 ['inputs','fault_sequences'],'every byte sequence given to every reader',
 'Tests read valid files; an endless loop needs a truncated or hostile file of a particular format.',
 IOF+['src/lib/io/ZIP.cpp','src/lib/core/ParticleSimple.cpp','src/lib/core/ParticleHeaders.cpp'],
 [('reader loops','every read* and its helpers'),('stream ends','while(input->good()), while(*input)')],
 'ranking-argument classification of every loop over LLVM IR (counted, container walk, stream-driven with forced end-of-stream reasoning)',
 'Every loop reachable from a reader. A count taken from the file bounds a loop even when it is large: the time may be long but not endless. Loops that match none of the ranking forms are undecided and listed in the evidence.',
 observe=['Partio::read','Partio::readHeaders'])
prop('C12','Attribute names, indices and entries of every particle set stay in bijection',
 'In every particle-set class, adding an attribute (per particle or fixed) under a name that exists changes nothing and returns an attribute of type NONE; under a new name it appends exactly one entry with the given name, type and count whose attributeIndex is its position, and registers the name for it. Lookup by index succeeds exactly for 0 <= index < the number of attributes and lookup by name exactly for registered names, and both return that entry.',
 ['histories'],'every sequence of addAttribute, addFixedAttribute and attributeInfo calls on every particle-set class',
 'The tests add three attributes with distinct names to one class and never look up an invalid index or add a duplicate to the others.',
 ['src/lib/core/ParticleSimple.cpp','src/lib/core/ParticleSimpleInterleave.cpp','src/lib/core/ParticleHeaders.cpp'],
 [('attribute tables','attributes/nameToAttribute, fixedAttributes/nameToFixedAttribute of the three classes'),('lookup','attributeInfo/fixedAttributeInfo')],
 'path-sensitive effect analysis of the attribute tables over LLVM IR',
 'Every path of the adders and lookups of each concrete class, from an arbitrary prior state; the tables are found from what the getters return. Trusts the standard containers. A duplicate test written without a keyed search is reported as undecided.',
 observe=['addAttribute','addFixedAttribute','attributeInfo'])
prop('C13','Indexed-string tables map strings to indices and back without loss',
 'For every string attribute (per particle or fixed) of every storing particle set, registering a string returns the index it is already registered under, or appends it and returns its new position; lookup returns that index, or -1 for a string that was never registered; the string list is the attribute\'s own. Replacing a token outside the table changes nothing; inside, it changes exactly that entry, after which the new string looks up to the token and the old string no longer does.',
 ['histories'],'every sequence of register, lookup and set calls on every string attribute',
 'The tests register a few strings in one attribute; mixed-up tables or a rename to an existing string need longer histories.',
 ['src/lib/core/ParticleSimple.cpp','src/lib/core/ParticleSimpleInterleave.cpp'],
 [('string tables','attributeIndexedStrs and fixedAttributeIndexedStrs of the two classes'),('operations','registerIndexedStr, lookupIndexedStr, setIndexedStr, indexedStrs and the Fixed variants')],
 'path-sensitive effect analysis of the string tables over LLVM IR',
 'Every path of the sixteen operations from an arbitrary prior state that satisfies the contract. Tables are identified by what the list getters return and which adder extends them. Trusts the standard containers.',
 observe=['registerIndexedStr','lookupIndexedStr','setIndexedStr','indexedStrs'])
prop('C11','Particle storage covers every particle and attribute without overlap or loss',
 'In every storing particle set, the address of a value is the attribute\'s base plus its stride times the index, for every index below the particle count and null at or above it; storage covers a capacity never below the count, for every attribute, whatever the order of addAttribute, addParticle and addParticles. Adding one or n particles raises the count by exactly that and keeps every value; adding an attribute (per particle or fixed) gives it bytes of its own and keeps every value; reading many particles copies exactly the requested values; the destructor releases everything once.',
 ['histories','inputs'],'every interleaving of addAttribute, addFixedAttribute, addParticle(s) and value access, every index',
 'The tests add a few particles after all attributes; growth across a capacity boundary, attributes added later and the interleaved class are not covered.',
 ['src/lib/core/ParticleSimple.cpp','src/lib/core/ParticleSimpleInterleave.cpp'],
 [('addressing','dataInternal, fixedDataInternal, setupAccessor, dataInternalMultiple'),('storage','addAttribute, addFixedAttribute, addParticle, addParticles, destructors')],
 'symbolic address and size polynomials from path-sensitive effect summaries over LLVM IR',
 'Every path of each method from an arbitrary prior state that satisfies the contract. Capacity growth of addParticle(s) is compared on the grid of counts below 40 (the expressions are piecewise linear with small slopes). Overflow of int counts and failing allocations are not judged.',
 observe=['data','addParticle','addParticles','addAttribute','addFixedAttribute'])
prop('C21','Iterating a particle set visits every particle once, in order',
 'A default or end iterator is invalid; begin, the set-up functions and addParticles of every particle set give an iterator over exactly the particles from the requested one to the last, or an invalid one when there are none, and header-only sets always an invalid one. Constructing, copying and assigning an iterator keep its provider, position and end; incrementing advances the position by one, the iterator becoming invalid exactly after the last particle, and postfix returns the old value. Iterators are equal exactly when provider and position are, and accessors read base plus stride times position.',
 ['histories','inputs'],'every particle set state and every sequence of iterator operations, const and mutable',
 'The tests iterate a small set once from the start; empty sets, later starts, copies and the interleaved class are not sampled.',
 ['src/lib/PartioIterator.h','src/lib/Partio.h','src/lib/core/ParticleSimple.cpp','src/lib/core/ParticleSimpleInterleave.cpp','src/lib/core/ParticleHeaders.cpp'],
 [('iterator and accessor templates','PartioIterator.h'),('iterator makers','setupIterator, setupConstIterator, addParticles, setupIteratorNextBlock, begin, end')],
 'path-sensitive effect analysis of iterator members and makers over LLVM IR',
 'Both iterator kinds and the float, int and vector accessors, explicitly instantiated. Predicates are decided by their truth tables over equal, different and absent inputs, and iterator ranges on counts and starts below 5 (the expressions are linear). An index below zero or a write during iteration is not judged. The address a provider gives an accessor is decided by C11.',
 observe=['begin','end','setupIterator','ParticleIterator','ParticleAccessor'])

prop('C14','A clone has the schema of the original and, when asked for, its values',
 'clone and cloneSchema return a new set in which every fixed and per-particle attribute of the original (clone without particles and cloneSchema: see below) is added exactly once, in order, under the name the name map gives it or its own, with the same type and count. clone copies every fixed value in full, and with particles=true also adds as many particles as the original has and copies every value of every particle to the same index, string attributes keeping their strings: each token becomes the token its string was given in the copy. clone without particles adds neither particles nor per-particle attributes, cloneSchema copies the schema of both kinds and no values, and an attribute whose mapped name is already taken is left alone.',
 ['inputs'],'every particle set, attribute kind, name map and string table',
 'The tests clone one small set; dropped strings, wide values or a name map that merges names need particular schemas.',
 ['src/lib/core/Particle.cpp'],
 [('schema','Partio::cloneSchema, getMappedName'),('values','Partio::clone, copyTokens')],
 'contract matching of generic loop iterations by path-sensitive effect analysis over LLVM IR',
 'Each loop of the two functions is summarised by one generic iteration (all its paths) with branches before it joined; attribute objects are tracked to the call that filled them. Loop forms or value terms outside the recognised shapes are reported as undecided in the evidence. Trusts the accessors of the sets (C11-C13) and the standard containers.',
 observe=['clone','cloneSchema'])

prop('C15','Merging keeps every particle, value and string of both sets',
 'After merge(base,delta,id0,id1) every attribute or fixed attribute only the delta has is added to the base with its name, type and count; attributes of the same name are combined exactly when count and type agree (float and vector being interchangeable), otherwise the base keeps its own. Every delta particle, as many as the delta had when merge was called, overwrites the base particle with the same identifiers when the same identifiers exist as INT attributes in both sets, and is otherwise appended; all its values are copied in full to that particle, string tokens becoming the index the base has for the string, and values a particle has from neither set are zero. Fixed values of the delta replace those of the base, their strings kept.',
 ['inputs'],'every pair of particle sets, including a set and itself, and every choice of identifiers',
 'The tests merge two small sets with one identifier; string tables, layouts that differ and one-sided identifiers have many combinations.',
 ['src/lib/core/Particle.cpp'],
 [('merge','Partio::merge, sameLayout, mergeFixed'),('strings','copyTokens and the translation table of merge')],
 'contract matching of generic loop iterations and truth tables over type, count and identifier cases, over path-sensitive effect summaries of LLVM IR',
 'Every loop of merge is summarised by one generic iteration with all its paths. Decisions on layouts (75 x 2 cases) and identifiers (16 cases) are evaluated over the extracted path conditions. Loop forms outside the recognised shapes are reported as undecided. Assumes sizes do not overflow and that the first merged identifiers are unique, as the documentation does; trusts the accessors (C11-C13).',
 observe=['merge'])

prop('C10','Operations on a const particle set leave it unchanged',
 'Writing, cloning, printing, querying or iterating a particle set, using it as the delta of a merge, or calling any other operation that takes it as const, changes nothing in it: no attribute, value, string table, particle count or internal buffer. In particular no writer converts values in place.',
 ['inputs','histories'],'every operation with a const particle-set parameter, every const method of every particle-set class',
 'The value storage is reached through void pointers returned by const methods, so the compiler does not enforce it; tests compare a set with its file, not with itself before writing.',
 IOF+['src/lib/core/Particle.cpp','src/lib/core/ParticleSimple.cpp','src/lib/core/ParticleSimpleInterleave.cpp','src/lib/core/ParticleHeaders.cpp','src/lib/core/KdTree.h','src/lib/Partio.h'],
 [('const accessors','Partio.h data, dataInternal'),('writers','write* of every format')],
 'interprocedural points-to and effect analysis over LLVM IR',
 'Every function with a const particle-set parameter or this, with everything it calls. Library functions outside the repository are judged by their signatures. Releasing a set is not a change. A set merged with itself is outside. Pointers kept in global variables are not followed.',
 observe=['Partio::write','Partio::clone','data','findPoints'])
prop('C22','Spatial queries report exactly the particles of the box or the nearest ones',
 'Sorting a particle set builds a search tree that holds every particle once; afterwards a box query appends, once each, exactly the indices of the particles inside the box (its bounds included) and leaves what the result held before. A nearest query gives, as indices of the set with their squared distances over all three axes, the requested number of nearest particles within the radius, or all of them if fewer, and the final squared radius. An unsorted or empty set gives no results.',
 ['inputs'],'every particle set, box, query point, number and radius',
 'The tests query one small cloud; a subtree wrongly skipped, an index paired with another distance or an untranslated index only shows for particular point sets and radii.',
 ['src/lib/core/KdTree.h','src/lib/core/ParticleSimple.cpp'],
 [('tree construction','KdTree.h ComputeSubtreeSizes, sort, sortSubtree, setPoints'),('searches','KdTree.h findPoints, findNPoints'),('heap of nearest points','KdTree.h buildHeap, insertToHeap'),('particle set interface','ParticleSimple.cpp sort, findPoints, findNPoints')],
 'path-sensitive effect analysis over LLVM IR; each generic step decided by its decision table',
 'The subtree sizes are evaluated for all sizes to 1100 and around powers of two to half a million; one generic node of the ordering and of each search, one axis of each box operation and one level of each heap walk are decided over all orders of the values they compare, from which the whole follows by induction. Distances in exact arithmetic; coordinates that are not numbers, rounding and a query after the set changed without a new sort are not judged. The interleaved set has no spatial queries.',
 observe=['sort','findPoints','findNPoints'])
prop('C02','Reading only the headers declares the same schema and count as a full read',
 'For every file that both a header-only and a full read accept, in every format, both give the same per-particle attributes and fixed attributes (names, types, counts and order) and the same number of particles. Header-only sets record declarations and count particles like the sets that hold data.',
 ['inputs'],'every file of every format that both reads accept',
 'The tests read headers of hardly any format; a reader that loses its place in the file, or declares under one mode only, needs the right schema to show.',
 IOF+['src/lib/core/ParticleHeaders.cpp'],
 [('header-only flag','the headersOnly argument of every read* codec'),('header-only set','ParticleHeaders.cpp')],
 'non-interference analysis (taint, control dependence, byte balance) over LLVM IR',
 'Declarations are decided on every way to a returned set; where the modes read differently before a later declaration the bytes taken are compared as polynomials, undecided when they do not normalise. Counts beyond 32 bits and repeated names are left to C12.',
 observe=['readHeaders','readHeadersCached'])
prop('C16','Numbers in text files do not depend on the locale of the process',
 'Whatever global C or C++ locale an application has set, every number the library formats into or parses from a file (and every number it puts in an attribute name) passes a stream that was set to the classic locale before, so the files are the same and read the same everywhere. The library never changes the locale of the process, and calls no function that formats or parses numbers by it.',
 ['inputs','configurations'],'every locale of the process, every number formatted or parsed by the library except messages to streams of the caller',
 'The tests run in the C locale only; a stream that keeps the locale of the process shows only under a locale with another decimal point or digit grouping.',
 ['src/lib/io/io.h','src/lib/io/GEO.cpp','src/lib/io/PDA.cpp','src/lib/io/PTS.cpp','src/lib/io/PTC.cpp','src/lib/io/RIB.cpp'],
 [('stream creation','io.h make_stream_locale_independent, unzip, read, write'),('parsing','GEO.cpp, PDA.cpp, PTS.cpp'),('formatting','GEO.cpp, PDA.cpp, RIB.cpp, PTC.cpp')],
 'interprocedural stream typestate and reachability over LLVM IR',
 'Every formatted insertion and extraction of a number is traced to where its stream was made; a way from there to the number that passes no imbue with the classic locale is the violation. Formats read by binary I/O have no such numbers; printing and messages go to streams of the caller.',
 observe=['Partio::read','Partio::write'])
prop('C24','The Python module fails with exceptions, balances references, stays in bounds',
 'On every path through every function of the Python module, whatever objects Python code passes: a failed call raises an exception, and a call that returns a result leaves none pending. Each reference the call takes is given up, handed over or returned exactly once and not used afterwards; a result that can be null (an item that cannot be read, data a header-only set does not hold, text that is no UTF-8) is tested before it is used. Sequences are never copied beyond the fixed arrays they go to, and 64 bit particle indices are not cut to ints.',
 ['inputs','fault_sequences'],'every path, including those that refused or failing Python objects select',
 'The Python tests call with well-formed arguments; an overrun, a leak or a null needs a sequence that is too long, an item that fails or an unusual string.',
 ['src/py/partio.i'],
 [('typemaps','partio.i fixedFloatArray, uint64_t, attrNameMap'),('data access','partio.i get, getFixed, set, setFixed'),('queries','partio.i findNPoints, findPoints'),('handles','partio.i attributeInfo, fixedAttributeInfo'),('strings','partio.i indexedStrs, readHelper')],
 'path-sensitive reference and exception typestate over LLVM IR; interval analysis for array indices',
 'Analyses the wrapper SWIG generates from the interface file on every run; SWIG run-time support and the Python library are trusted, and memory does not run out. Whether the type a wrapped result claims is the one it has is not judged.',
 observe=['partio.read','partio.set','partio.get'])
prop('C06','The binary formats read back what they write',
 'For PDB (32 and 64 bit), PDC, PTC, PRT and BIN, reading a file that the writer of the format wrote for any particle set takes every byte for what it was written as: same sizes, order, byte order and number of rounds. It gives the same number of particles, and every attribute the file holds comes back with its type (an indexed string as the integer of its index), its component count and each component of each particle at its place.',
 ['inputs'],'every particle set written by a writer of the five formats and read by the reader of the same format',
 'Tests round-trip one small set with few attributes; a record size, channel offset, type code or component order that only differs for some type, count or combination of attributes is not seen.',
 ['src/lib/io/PDB.cpp','src/lib/io/pdb.h','src/lib/io/PDC.cpp','src/lib/io/PTC.cpp','src/lib/io/PRT.cpp','src/lib/io/BIN.cpp','src/lib/io/PartioEndian.h'],
 [('writer and reader of a format','read* and write* of PDB.cpp, PDC.cpp, PTC.cpp, PRT.cpp, BIN.cpp')],
 'lock-step product of the writer\'s and the reader\'s abstract byte streams, over LLVM IR',
 'A generic round of every loop, per attribute type, both sides path by path. Not compared: the text of an attribute name beyond its length, the encoding of PTC normals, rounding between widths, the zlib stream of PRT, sets of more than 2^31 bytes, and attributes whose fixed names the format declares with another type or count in the set. A pairing outside the recognised forms is undecided.',
 observe=['Partio::write','Partio::read'])
