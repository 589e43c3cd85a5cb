# Texts of the properties; bin/gen turns this into properties.jsonl and MANIFEST.json.
P = []
NOT_APPLICABLE = {}


def prop(id, title, statement, over, text, why, files, mech, **k):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, **k))


prop("C01", "On-disk B-tree behaves as a sorted map across every history",
     "After any sequence of insertions, replacements, flushes, closes and reopenings (read-write or read-only, at any "
     "file offset), a lookup returns exactly the last value set for that key and reports absent keys as absent, the count "
     "equals the number of distinct keys, set() reports whether it replaced a value, and a range query returns exactly "
     "the stored entries with key1 <= key <= key2 in ascending order. Everything flushed is seen by a reader that opens "
     "the file afterwards, and bytes before the tree's offset are never touched.",
     ["histories", "inputs"], "all histories of operations, key and value types, page sizes, offsets and insertion orders",
     "Tests insert a few fixed key sequences into one or two tree types; splits, gaps between leaves and reopen points depend on the whole history.",
     ["src/eckit/container/BTree.h", "src/eckit/container/BTree.cc"],
     [("page splits keep sibling links and separator keys", "BTree::insert, splitRoot"), ("page cache written back on flush/close", "BTree::flush, loadPage, savePage")])

prop("C02", "Reading through any composition of data handles yields exactly the bytes",
     "For every tree of handles over files, parts of files, memory, mappings, pools, concatenations, buffers, look-ahead "
     "and parts of other handles, any sequence of read/seek/skip/rewind/restart/close/reopen returns exactly the bytes of the "
     "concatenated content at the reported position, returns zero only at the end, never writes beyond the caller's buffer, and "
     "reports position, size and estimate exactly. A clone, a handle sent through a stream and read back, and a saved or copied "
     "(possibly size-limited) version have the same content; peeking never consumes; several readers of one pooled file do not disturb each other.",
     ["inputs", "histories", "configurations"], "all handle trees, contents, chunk sizes, short reads and operation histories",
     "Tests use one handle kind at a time, with contents smaller than a buffer and reads in one go.",
     ["src/eckit/io/DataHandle.cc", "src/eckit/io/MultiHandle.cc", "src/eckit/io/PartFileHandle.cc", "src/eckit/io/PartHandle.cc",
      "src/eckit/io/BufferedHandle.cc", "src/eckit/io/PeekHandle.cc", "src/eckit/io/SeekableHandle.cc", "src/eckit/io/PooledHandle.cc",
      "src/eckit/io/MemoryHandle.cc", "src/eckit/io/MMappedFileHandle.cc", "src/eckit/io/FileHandle.cc"],
     [("per-part offset bookkeeping", "PartFileHandle::read1/seek, MultiHandle::read1/seek"), ("shared file positions", "PoolHandleEntry::read"),
      ("buffer refill and invalidation", "BufferedHandle::read/seek")])

prop("C03", "Writing through any composition of data handles stores every byte or reports",
     "Whatever the tree of writing handles (file, overwrite, append, growing memory, asynchronous I/O, asynchronous thread, "
     "buffered, tee, multi-part), chunking, seeks while writing and intermediate flushes, after close() every target holds exactly the bytes written "
     "to it, after flush() everything written so far, and append keeps what was there. If any target fails or accepts fewer "
     "bytes, a write, flush or close of the outer handle reports it: no error is ever swallowed.",
     ["inputs", "histories", "schedules", "fault_sequences"], "all handle trees, chunkings, flush points, failing offsets and thread schedules",
     "Tests write small files without failures; lost errors and reordering need faults at chosen bytes and particular thread timings.",
     ["src/eckit/io/BufferedHandle.cc", "src/eckit/io/AsyncHandle.cc", "src/eckit/io/AIOHandle.cc", "src/eckit/io/TeeHandle.cc",
      "src/eckit/io/MultiHandle.cc", "src/eckit/io/FileHandle.cc", "src/eckit/io/MemoryHandle.cc"],
     [("queue of buffers under one condition", "AsyncHandleWriter::run, AsyncHandle::write/flush/close"), ("slots of asynchronous requests", "AIOHandle::getFreeSlot, flush"),
      ("growth", "MemoryHandle::write")],
     technique="runtime monitoring: byte-exact reference over random handle trees with injected faults, ASan+UBSan and TSan builds")

prop("C04", "A transfer delivers all the bytes or an error, with restarts and faults",
     "Saving, copying or double-buffering one handle into another delivers exactly the source bytes and returns their number, "
     "whatever the buffer sizes, short reads and restart requests from either side, and shows the watcher exactly those bytes. "
     "If reading or writing fails at any point - by exception, error code or short count - or the source has fewer bytes than it announced, the "
     "transfer reports an error, both handles are closed exactly once, no thread is left behind and what was written is a prefix of the source. "
     "Comparing two handles tells whether their bytes are equal, or fails if one cannot be read.",
     ["inputs", "schedules", "fault_sequences"], "all sources, buffer counts and sizes, fault and restart offsets, reader/writer interleavings",
     "No test injects failures or restarts into a transfer, or runs the reader and writer threads under varied timing.",
     ["src/eckit/io/DataHandle.cc", "src/eckit/io/DblBuffer.cc", "src/eckit/io/TransferWatcher.h"],
     [("restart protocol", "DataHandle::saveInto, DblBuffer::copy"), ("full/empty buffer hand-over", "DblBuffer::copy, DblBufferTask::run")],
     technique="runtime monitoring: fault-injecting sources and sinks with a byte-exact oracle, ASan+UBSan and TSan builds", level="fault_enumeration")

prop("C05", "In-memory and recycling containers behave as their abstract models",
     "For every history of operations: the LRU cache never holds more than its capacity, evicts exactly the least recently used entries, keeps the last "
     "value per key and hands every entry that is evicted, removed or cleared to its purge handler exactly once; the trie, dense map and dense set answer "
     "as a sorted map or set (last insertion wins after sorting, merge is the union); the Bloom filter never reports an inserted key absent; the circular "
     "buffer delivers bytes first-in first-out across growth and wrap-around; buffers keep their bytes over moves, resizes and consolidation; the "
     "file-based recycler pops exactly what was pushed and not yet popped, also after reopening.",
     ["histories", "inputs"], "all histories of operations, keys, values and capacities",
     "Tests use a few entries in one order; wrap-around, growth, eviction order and node removal depend on the history.",
     ["src/eckit/container/CacheLRU.cc", "src/eckit/container/Trie.cc", "src/eckit/container/DenseMap.h", "src/eckit/container/DenseSet.h",
      "src/eckit/container/BloomFilter.cc", "src/eckit/io/CircularBuffer.cc", "src/eckit/io/Buffer.cc", "src/eckit/io/BufferList.cc", "src/eckit/container/Recycler.h"],
     [("list and map kept in step", "CacheLRU::insert/access/trim"), ("node pruning", "Trie::remove"), ("wrap-around and growth", "CircularBuffer::write/read")])

prop("C06", "Queues, thread pools and primitives are exactly-once in every schedule",
     "For every number of producers, consumers, sizes and interleavings: a bounded queue delivers each pushed element exactly once, first-in first-out, "
     "never exceeds its maximum, drains after close and then reports the end, and on interruption every blocked or later call throws the given exception. "
     "A thread pool executes and destroys each pushed task (alone, in a list, or by another task) exactly once; wait() returns, to every caller, only "
     "when all have finished; waitForThreads() and destruction never abandon a task and report all failures. A producer/consumer pair delivers in order and reports failures of "
     "either side. Reference-counted objects die exactly once, after the last reference; per-thread singletons are private; no data race occurs.",
     ["schedules", "inputs"], "all thread interleavings, numbers of threads, queue sizes and failures",
     "Unit tests run one interleaving with one or two threads and no failures; lost wake-ups and early destruction need rare timings.",
     ["src/eckit/container/Queue.h", "src/eckit/thread/ThreadPool.cc", "src/eckit/runtime/ProducerConsumer.h", "src/eckit/memory/Counted.h",
      "src/eckit/thread/ThreadControler.cc", "src/eckit/thread/ThreadSingleton.h", "src/eckit/thread/MutexCond.cc"],
     [("condition variable protocol", "Queue::push/pop/close/interrupt"), ("task and thread accounting", "ThreadPool::push/next/wait/waitForThreads"),
      ("payload hand-over", "ProducerConsumer::execute, ProducerConsumerTask::run"), ("count under the mutex", "Counted::attach/detach")],
     technique="runtime monitoring: exactly-once and FIFO history checker over stressed schedules, TSan and ASan+UBSan builds")

prop("C07", "Values behave as values: independent copies, a total order, exact arithmetic",
     "For any tree of values (nil, booleans, 64-bit numbers, doubles, strings, dates, times, lists, maps, ordered maps): a copy, clone or element taken "
     "out never changes when another is mutated (assignment, append, element, remove, at any depth); copies, clones and values read back from a stream are "
     "equal with equal hashes; comparison is reflexive, antisymmetric, transitive and agrees with the operators and with the natural order of each type; integer arithmetic is exact over "
     "64 bits; mixed arithmetic follows the operands' order; ordered maps keep insertion order.",
     ["inputs", "histories"], "all value trees and all histories of copying, nesting and mutation",
     "Tests check a few literals; sharing bugs need an alias at the right depth, ordering bugs particular pairs and triples.",
     ["src/eckit/value/Value.cc", "src/eckit/value/NumberContent.cc", "src/eckit/value/DoubleContent.cc", "src/eckit/value/ListContent.cc", "src/eckit/value/MapContent.cc",
      "src/eckit/value/OrderedMapContent.cc", "src/eckit/value/Content.cc"],
     [("copy on write", "Value::update, Content::clone"), ("double dispatch comparison", "Content::compare*"), ("key order", "OrderedMapContent::element/remove/compareOrderedMap")])

prop("C08", "Streams give back every value exactly, or an error",
     "Any sequence of numbers, strings, blobs, containers, values and objects written to a stream (memory, growing memory, data handle, file, pipe) is read "
     "back in order and identical bit for bit, objects with their class and after checking it, and an exception written by one side is thrown by the other. Reading a value as another type, "
     "a truncated stream, a blob of another size, an unknown class or writing past the end of memory always raises an error; truncated or damaged bytes never cause undefined "
     "behaviour nor change what was read before the damage.",
     ["inputs", "crash_points"], "all sequences of values, stream kinds, truncation points and damaged bytes",
     "Tests stream a handful of values and do not truncate or damage them; boundary values, tags and end marks depend on the sequence.",
     ["src/eckit/serialisation/Stream.cc", "src/eckit/serialisation/MemoryStream.cc", "src/eckit/serialisation/ResizableMemoryStream.cc", "src/eckit/serialisation/Reanimator.cc",
      "src/eckit/serialisation/ReanimatorBase.cc", "src/eckit/serialisation/FileStream.cc", "src/eckit/serialisation/PipeStream.cc", "src/eckit/types/Types.cc"],
     [("type tags", "Stream::readTag, nextTag, badTag"), ("end marks of objects", "Stream::next, skipEndObject"), ("growth", "ResizableMemoryStream::write")])

prop("C09", "JSON, YAML and CSV text is read exactly, and broken text is refused",
     "Any value (nested to any depth, strings with any bytes and escapes, 64-bit integers, doubles) written as JSON, YAML or CSV in any legal style (white space, comments, number and string "
     "forms, block and flow) is read as that value, whether from memory or a file; what the JSON writer produces for any value is valid JSON that reads back as that value; text that is "
     "not JSON, such as any proper prefix of an object or list, is refused with an error, never read as something else; edited or truncated text never causes undefined behaviour or an "
     "endless loop.",
     ["inputs"], "all values and styles, and edits and truncations of the text",
     "Tests parse a few dozen hand-written texts; escapes, number forms, quoting and truncation interact.",
     ["src/eckit/parser/ObjectParser.cc", "src/eckit/parser/JSONParser.cc", "src/eckit/parser/StreamParser.cc", "src/eckit/parser/YAMLParser.cc",
      "src/eckit/parser/CSVParser.cc", "src/eckit/log/JSON.cc"],
     [("escapes", "ObjectParser::parseString, unicode"), ("numbers", "ObjectParser::parseNumber"), ("end of input", "StreamParser::next, consume"), ("indentation", "YAMLItemKey/YAMLItemEntry")])

prop("C10", "Dates, times, fractions, versions and tolerant comparison are exact",
     "For every day of the years 1000 to 9999: dates made from year/month/day, day of the year, numbers or any documented text are that day of the Gregorian calendar, print and read back as themselves; "
     "differences and sums of days, and of seconds on date-times (negative ones too, across midnights), are exact, orders agree with time, and formatting agrees with strftime. Days and times that do not exist, and text "
     "that is not in a documented form, are refused, never taken as another day or time. Fractions are kept reduced and their arithmetic and order exact while they fit 64 bits; versions are ordered and read by their numbers; "
     "fixed-length strings behave as strings; approximate equality is symmetric and honours epsilon and distance as documented.",
     ["inputs"], "all dates, times, durations, fractions, versions, floating point pairs and texts",
     "Tests check a few dozen dates, times and fractions; calendar rules, carries, signs and number edges only show at particular values.",
     ["src/eckit/types/Date.cc", "src/eckit/types/Time.cc", "src/eckit/types/DateTime.cc", "src/eckit/types/Fraction.cc", "src/eckit/types/SemanticVersion.cc",
      "src/eckit/types/FixedString.h", "src/eckit/types/FloatCompare.cc", "src/eckit/types/DayOfYear.cc", "src/eckit/types/Month.cc", "src/eckit/types/Hour.cc", "src/eckit/types/UUID.cc"],
     [("calendar", "Date::dateToJulian, julianToDate"), ("forms of times", "checkTimeFormat"), ("carry of seconds", "DateTime::operator+"), ("canonical form, overflow", "Fraction")])

prop("C11", "Text tools and codings are faithful",
     "Splitting, joining, trimming, case conversion, prefix and suffix tests, quoting and variable substitution give exactly the documented result for every text, and unbalanced or unknown variables are refused. "
     "Numbers, lists and sizes with unit suffixes converted to text and back are unchanged; casts between signed and unsigned refuse what does not fit. A shell pattern matches exactly the texts it describes, "
     "and an escaped text matches only itself. A hash depends only on the bytes added since the start or the last reset, however they are cut up, and is the standard one. "
     "Base64, bit streams, run-length and difference encodings (with any limit on time or depth), compressors, byte order reversal and hypercube indices decode to exactly what was encoded, without reading or writing out of bounds, "
     "and text that is not Base64 is refused; rendezvous hashing orders the nodes independently of how they were listed, and removing a node leaves the order of the others.",
     ["inputs"], "all texts, numbers, byte strings, sequences and node lists",
     "Tests check a few fixed strings; separators, empty parts, widths, repeats and lengths modulo the coding unit interact.",
     ["src/eckit/utils/Tokenizer.cc", "src/eckit/utils/StringTools.cc", "src/eckit/utils/Translator.cc", "src/eckit/utils/Regex.cc", "src/eckit/utils/Hash.cc", "src/eckit/utils/MD5.cc",
      "src/eckit/utils/SHA1.cc", "src/eckit/utils/RLE.cc", "src/eckit/utils/HyperCube.cc", "src/eckit/utils/RendezvousHash.cc", "src/eckit/utils/ByteSwap.h", "src/eckit/utils/SafeCasts.h",
      "src/eckit/utils/Compressor.cc", "src/eckit/io/Base64.cc", "src/eckit/io/BitIO.cc", "src/eckit/codec/detail/Base64.cc"],
     [("incremental hashing", "MD5::update, digest, reset"), ("bit packing", "BitIO::write, read, flush"), ("repeats", "RLEencode2timeout, RLEdecode2"), ("remapping", "HyperCube::addToDimension")])

prop("C12", "Spatial trees answer exactly like a search through all their points",
     "For every set of points (with equal coordinates or duplicates) in a k-d tree, in memory or in a mapped file, built at once or by insertions in any order: the nearest neighbour, the k nearest neighbours and the points "
     "within a radius are at exactly the distances an exhaustive search finds, each point at most once with its own payload, ordered by distance, and as many as exist up to k; iteration and visits see every point once, "
     "including points inserted later. A mapped tree opened again holds the same points and metadata; one that is full or open for reading refuses insertions without damaging its content.",
     ["inputs", "histories"], "all sets of points, queries, and orders of insertion",
     "Tests search a few small fixed sets; pruning errors only show for particular configurations of points, queries and k.",
     ["src/eckit/container/KDTree.h", "src/eckit/container/kdtree/KDNode.cc", "src/eckit/container/sptree/SPNode.cc", "src/eckit/container/sptree/SPNodeQueue.h",
      "src/eckit/container/sptree/SPIterator.h", "src/eckit/container/KDMapped.cc", "src/eckit/container/KDMemory.h", "src/eckit/geometry/KPoint.h"],
     [("pruning", "KDNode::nearestNeighbourX, kNearestNeighboursX, findInSphereX"), ("splitting", "KDNode::build, insert"), ("linking", "SPNode::linkNodes"), ("mapped layout", "KDMapped")])

prop("C13", "Processes sharing locks, arrays, caches and logs do not interfere, even dying",
     "For every schedule of processes on one host: a semaphore or file lock is held by at most one process at a time, may be locked again by the semaphore's holder, and is released when its holder is killed; "
     "shared counters never exceed their limit, and give back what a killed process used. Arrays in mapped files or shared memory lose no update made under their lock, and mapped ones keep them for later processes. "
     "A transaction begun in a log and neither ended nor archived is found again, once, and recovered with its last complete update by whoever opens the log after a crash at any point; one that was ended is never recovered. "
     "A cache creates each entry at most once among the processes that want it at the same time, never delivers an incomplete one, even if a process is killed while creating it, "
     "delivers cached entries unchanged, and stays within its maximum size by removing what was used least recently.",
     ["schedules", "crash points", "histories"], "all schedules of processes, killed at any point",
     "Tests use one process, so neither exclusion, nor sharing, nor what is left behind by one that dies is exercised.",
     ["src/eckit/os/Semaphore.cc", "src/eckit/os/SharedInt.cc", "src/eckit/io/FileLock.cc", "src/eckit/container/SharedMemArray.h", "src/eckit/container/MappedArray.h", "src/eckit/transaction/TxnLog.cc",
      "src/eckit/container/CacheManager.cc", "src/eckit/container/CacheManager.h"],
     [("begin, update and end of a transaction, recovery", "TxnLog"), ("lock, check again, stage, rename", "CacheManager::get, getOrCreate"), ("undo on exit", "Semaphore::set"), ("size index", "CacheManagerBase::touch, rescanCache")])

prop("C14", "Path names, files, URIs and file spaces behave as the file system does",
     "For every text of a path: the tidied path leads to the same place (a relative one stays relative), tidying it again changes nothing, directory, base name, extension, joined, relative and full names are consistent, "
     "and order and streams preserve the text. For every history of file operations, existence, kind, size, times, mode, identity and content are those of the file system, listings have every entry once "
     "and matching gives exactly the entries with matching names, whatever links there are; unique and temporary names are never given twice among threads and processes, and temporaries disappear without touching anything else. "
     "Modes are printed and read back, invalid ones refused. A URI is split into exactly its scheme, user, host, port, path, query values and fragment, and its text, stream and parts give it back; "
     "malformed ones are refused with an eckit exception. Path expansion substitutes exactly what is defined and refuses the rest. "
     "A file space chooses only file systems that work and are not full, by the announced strategy, and follows changes of its configuration.",
     ["inputs", "histories", "schedules"], "all texts of paths and URIs, histories of file operations, directory trees, sizes of file systems",
     "Tests use a few fixed paths and URIs; dots, trailing slashes, separators inside parts and links interact.",
     ["src/eckit/filesystem/LocalPathName.cc", "src/eckit/filesystem/PathName.cc", "src/eckit/filesystem/URI.cc", "src/eckit/filesystem/URIManager.cc", "src/eckit/filesystem/FileMode.cc",
      "src/eckit/filesystem/PathExpander.cc", "src/eckit/filesystem/FileSpace.cc", "src/eckit/filesystem/FileSpaceStrategies.cc", "src/eckit/filesystem/TmpDir.cc", "src/eckit/filesystem/TmpFile.cc"],
     [("tidying", "tidy_path_tokens, rebuild_path"), ("patterns", "LocalPathName::match"), ("parts of a URI", "URI::parse, encode, decode"), ("strategies", "FileSpaceStrategies, findCandidates, chooseByProbability")])

prop("C15", "Configurations, resources, tables and options are what was set, in order",
     "For every history of settings: a configuration gives back at every path exactly the value last set there, with its type, keys in the order they were first set, lists element by element, and parts as configurations; "
     "integers that do not fit the requested type, missing values without a default and values of another kind than a requested list are refused, missing ones with a default give it; what is set below something that is not "
     "a configuration is refused; copies and parts are independent of where they came from, even when changed by different threads and even when a configuration is set inside itself; equal content has equal hashes, and the JSON text, "
     "read as YAML, gives the same answers. A resource takes its value from the command line, else its environment variable, else the configuration files (the last definition, of the most specific owner), else its default, "
     "the same for all threads. A table has every line of its file and finds the first that matches. "
     "A command line gives each option the last value given, or its default, splits vectors, takes as many values as an option has, leaves the rest as arguments in order, "
     "and is refused exactly if an option is unknown, lacks a value, has a wrong number of values, or the number of arguments is wrong.",
     ["inputs", "histories", "schedules"], "all histories of settings, configuration files, environments and command lines",
     "Tests set and read a few values; shared content, copies, precedence and unusual lines or values only matter in combination.",
     ["src/eckit/config/LocalConfiguration.cc", "src/eckit/config/Configuration.cc", "src/eckit/config/YAMLConfiguration.cc", "src/eckit/config/ResourceBase.cc", "src/eckit/config/ResourceMgr.cc",
      "src/eckit/config/EtcTable.cc", "src/eckit/option/CmdArgs.cc", "src/eckit/option/SimpleOption.cc", "src/eckit/option/VectorOption.cc", "src/eckit/option/MultiValueOption.cc"],
     [("copy on write", "LocalConfiguration::setValue"), ("paths", "Configuration::lookUp"), ("precedence", "ResourceBase::init, ResourceMgr::doLookUp"), ("lines", "ResourceMgr::parse, EtcTable::load"), ("parsing", "CmdArgs::init")])

prop("C16", "Vectors, matrices, sparse matrices and tensors compute what mathematics says",
     "For every input: each back end computes dot products, products of matrices, of sparse matrices and diagonal scaling equal to the mathematical result within rounding, writes only its result, "
     "and refuses operands whose sizes do not match. Copies are independent, views share their memory, moves and swaps exchange content, streams and files give back exactly what was written, and one that ends too early is refused. "
     "A sparse matrix has exactly the non-zero entries it was built from, also after any history of transposing, pruning, row selection, identity, copying, dumping, loading and viewing, and iterating it, or a row of it, visits "
     "each entry once with its row and column even if rows are empty; what is viewed is never modified. Every element of a tensor is where its layout and shape say, also after changing layout. Small fixed matrices invert, multiply and find "
     "determinants as defined, rounding up goes to the next multiple, and a convex hull contains all its points and is closed.",
     ["inputs", "histories"], "all shapes and values, all histories of operations on sparse matrices, all back ends",
     "Tests use a few fixed matrices; empty rows, views, degenerate shapes and the other back ends are not met.",
     ["src/eckit/linalg/SparseMatrix.cc", "src/eckit/linalg/Matrix.cc", "src/eckit/linalg/Vector.cc", "src/eckit/linalg/Tensor.h", "src/eckit/linalg/dense", "src/eckit/linalg/sparse", "src/eckit/maths/Matrix3.h",
      "src/eckit/maths/ConvexHullN.h", "src/eckit/maths/Matrix.h"],
     [("products", "LinearAlgebraDenseGeneric, LinearAlgebraSparseGeneric and the other back ends"), ("compressed rows", "SparseMatrix::SparseMatrix, transpose, prune, rowReduction, const_iterator"), ("layouts", "Tensor::strides, index")])

prop("C17", "Records give back every item exactly, or say that they are damaged",
     "For every set of items (integers, floating point numbers, strings, arrays, also empty ones and links to items of other records), any compression, and records one after the other in a file or stream: "
     "each item is read back bit for bit, in any order, through a file, a stream, a session or a chain of links, with its type and size in its metadata; setting an item again replaces it; "
     "the estimated size is never too small and exact without compression. Reading an item that does not exist, as another type, or through a link to nothing is refused. "
     "A change of any byte of the data or metadata is detected, and leaves the other items readable; damage anywhere else is detected or harmless; what is missing at the end is detected; "
     "a writer whose target does not take everything fails. All of this by exceptions, never by undefined behaviour.",
     ["inputs", "faults"], "all items, layouts, single damaged bytes, truncations and points of failure",
     "Tests read back a few records in perfect condition.",
     ["src/eckit/codec/RecordWriter.cc", "src/eckit/codec/Record.cc", "src/eckit/codec/RecordItemReader.cc", "src/eckit/codec/ReadRequest.cc", "src/eckit/codec/Data.cc", "src/eckit/codec/types", "src/eckit/codec/detail/Checksum.cc"],
     [("layout of a record", "RecordWriter::write, Record::read"), ("checksums", "ReadRequest::checksum"), ("links", "RecordItemReader::read"), ("arrays", "decode of the array adaptors")])

prop("C18", "Points, angles, circles and areas on spheres and spheroids are right",
     "For every longitude and latitude, also outside of the usual ranges, at and next to the poles, quadrants, antipodes and each other, and for every radius: normalising an angle gives the same angle within exactly the promised "
     "half open range; making a point canonical gives the same place, once and for all; different names of a place are equal, and different places are not; antipodes are opposite. Conversions to and from Cartesian "
     "coordinates, on spheres and spheroids with heights, agree with vector algebra within rounding. Central angles and distances are symmetric, never NaN, and agree with vectors also for close and opposite points. "
     "Great circles refuse exactly collinear points, go through all latitudes and longitudes they return, return all of them, and have the right courses. Areas of boxes, spheres and spheroids equal the integral. "
     "A figure built from its description is the same figure; impossible figures and latitudes are refused.",
     ["inputs"], "all points, angles, boxes, radii and flattenings",
     "Tests use a few round coordinates; rounding, poles, antipodes and spheroids go wrong between them.",
     ["src/eckit/geometry/CoordinateHelpers.cc", "src/eckit/geometry/Sphere.cc", "src/eckit/geometry/GreatCircle.cc", "src/eckit/geometry/EllipsoidOfRevolution.cc", "src/eckit/geo/PointLonLat.cc", "src/eckit/geo/PointLonLatR.cc",
      "src/eckit/geo/GreatCircle.cc", "src/eckit/geo/Figure.cc", "src/eckit/geo/figure/Sphere.cc", "src/eckit/geo/figure/OblateSpheroid.cc"],
     [("normalisation", "normalise_angle, PointLonLat::normalise_angle_to_minimum, make, points_equal"), ("conversion", "Sphere::convertSphericalToCartesian and back"), ("angles", "Sphere::centralAngle"), ("circles", "GreatCircle::latitude, longitude, course"), ("areas", "Sphere::area, OblateSpheroid::_area")])

prop("C19", "Projections do what they are defined to do, and their inverses undo it",
     "For every set of parameters (centre, parallels, first point, factor, rotation, size and shape of the Earth, false origin) and every point away from where the projection is singular, a projection gives the coordinates of its "
     "definition, on both hemispheres and on any turn of longitude, and its inverse gives the point back. A composition is its parts one after the other, inverted in the opposite order, and gives the points in between; a reversed "
     "projection exchanges both directions. A projection built from its own description is equal to it and gives the same coordinates. Impossible parameters are refused.",
     ["inputs"], "all parameters and points of equidistant cylindrical, Mercator, Lambert conformal and azimuthal, Albers, polar stereographic, rotation, stretching and Cartesian projections",
     "Tests invert a few points of few projections in one quadrant.",
     ["src/eckit/geo/Projection.cc", "src/eckit/geo/projection/AlbersEqualArea.cc", "src/eckit/geo/projection/LambertConformalConic.cc", "src/eckit/geo/projection/LambertAzimuthalEqualArea.cc", "src/eckit/geo/projection/Mercator.cc",
      "src/eckit/geo/projection/PolarStereographic.cc", "src/eckit/geo/projection/Rotation.cc", "src/eckit/geo/projection/Stretch.cc", "src/eckit/geo/projection/Composer.cc", "src/eckit/geo/projection/EquidistantCylindrical.cc", "src/eckit/geo/projection/LonLatToXYZ.cc"],
     [("definitions", "fwd and inv of every projection"), ("composition", "Composer::fwd, inv, fwd_points, inv_points"), ("descriptions", "fill_spec and the constructors from a Spec")])

prop("C21", "Grids have the points their descriptions say, in order, and keep them",
     "For every grid (regular, Gaussian, reduced, HEALPix, unstructured), over any area and with any reference: it has exactly the points its description defines (the multiples of the increment from the reference inside the area, the Gaussian "
     "latitudes as roots of the Legendre polynomials, the HEALPix pixels, the points given), in scan order, once each, also around the Earth; size, shape, first and last point agree with them; iterators moved by any distance, either way, are at "
     "the point of their index; the bounding box contains all points; a grid built from the description of another is equal to it, with the same uid, and other points have another uid; a cropped grid has the points of the grid in the area, and "
     "renumbering between ring and nested is the permutation between the same points.",
     ["inputs", "histories"], "all grids of these kinds, areas, references and orders, and sequences of iterator moves",
     "Tests check a few grids by number of points, first and last point and a stored description.",
     ["src/eckit/geo/Grid.cc", "src/eckit/geo/range/Regular.cc", "src/eckit/geo/range/GaussianLatitude.cc", "src/eckit/geo/grid/regular/RegularLL.cc", "src/eckit/geo/grid/regular/RegularGaussian.cc", "src/eckit/geo/grid/Reduced.cc",
      "src/eckit/geo/grid/reduced/ReducedGaussian.cc", "src/eckit/geo/grid/reduced/HEALPix.cc", "src/eckit/geo/grid/Unstructured.cc", "src/eckit/geo/iterator/Reduced.cc"],
     [("points", "Grid::iterator, Grid::to_points, Grid::to_latlons, range::Regular, range::GaussianLatitude"), ("descriptions", "Grid::spec, Grid::uid, fill_spec, GridFactory"), ("cropping and renumbering", "make_grid_cropped, order::HEALPix::reorder")])

prop("C22", "SQL queries give exactly the rows they describe",
     "For every query the SQL engine accepts (expressions, conditions, bit fields, aggregates, DISTINCT, GROUP BY, ORDER BY, joins of tables) and all tables, with missing values, strings of any size and layouts that change from frame to frame: "
     "the rows given are those of the combinations of rows of its tables for which the condition is true, under three-valued logic, with the values of its expressions, in the order of the table or the one asked for; grouped queries have one row per group, with aggregates of exactly the "
     "rows of the group; equal rows are given once with DISTINCT; the number of rows said is the number given; and a query gives the same when executed again, or after other queries of the session, refused ones included. The text written for them has these names and values. "
     "Anything that is not a query is refused with an exception, and functions of any arguments give a value or an exception: neither reads or writes outside its memory.",
     ["inputs", "histories"], "all queries, tables and sequences of queries in a session",
     "Tests run some dozen queries on one table of a few rows.",
     ["src/eckit/sql/SQLSelect.cc", "src/eckit/sql/SQLParser.cc", "src/eckit/sql/sqly.y", "src/eckit/sql/SQLOrderOutput.cc", "src/eckit/sql/SQLDistinctOutput.cc", "src/eckit/sql/SQLSimpleOutput.cc", "src/eckit/sql/expression/ColumnExpression.cc",
      "src/eckit/sql/expression/SQLExpressions.cc", "src/eckit/sql/expression/function/FunctionFactory.cc", "src/eckit/sql/expression/function/DoubleFunctions.cc", "src/eckit/sql/type/SQLBitfield.cc"],
     [("rows", "SQLSelect::execute, processOneRow, SQLOrderOutput, SQLDistinctOutput"), ("values", "ColumnExpression, FunctionFactory, DoubleFunctions, aggregates"), ("text", "SQLSimpleOutput"), ("parser", "SQLParser::parseString")])

prop("C23", "What is sent over the network arrives whole, once and in order, or is reported",
     "Whatever the sizes of writes and reads, and however the network cuts data into pieces or delays it: a TCP socket, a stream of objects, an iostream, a data handle on a socket, and several sockets used as one give the receiver exactly the bytes and objects sent, in order, each once, in both "
     "directions at the same time, then the end; when the connection breaks, what came before the break is right, and reads and writes say that it broke, without end or crash. A datagram arrives as one. Sockets belong to exactly one owner, and none is left open afterwards. "
     "A service answers each of many clients at the same time with its own answers, and outlives clients that fail or go away. A connector gives each request its own answer, sent once, from the server or as kept for it, and says when it has to be tried again. "
     "Behind an HTTP proxy the data follow the header exactly. Masks, addresses, end points and headers are what their text says.",
     ["schedules", "inputs", "faults"], "all sizes, fragmentations, interleavings of both directions and points where connections break",
     "Tests only parse addresses and end points; no data is sent.",
     ["src/eckit/net/TCPSocket.cc", "src/eckit/net/TCPServer.cc", "src/eckit/net/MultiSocket.cc", "src/eckit/net/TCPStream.cc", "src/eckit/net/Connector.cc", "src/eckit/net/NetService.cc", "src/eckit/net/HttpHeader.cc", "src/eckit/net/UDPServer.cc",
      "src/eckit/net/NetMask.cc", "src/eckit/net/Endpoint.cc", "src/eckit/net/ProxiedTCPServer.cc", "src/eckit/io/TCPHandle.cc", "src/eckit/io/TCPSocketHandle.cc", "src/eckit/io/MultiSocketHandle.cc", "src/eckit/io/SockBuf.cc"],
     [("bytes", "TCPSocket::read, write, MultiSocket, UDPClient, UDPServer"), ("objects and handles", "TCPStream, TCPHandle, TCPSocketHandle, MultiSocketHandle, SockBuf"), ("requests", "NetService, NetUser, Connector"), ("names", "Endpoint, NetMask, HttpHeader")])

prop("C24", "What is written to a log reaches every target, whole, once and in order",
     "Whatever is written to a channel, in pieces of any size, with ends of lines anywhere, and however targets are set, added, indented, unindented and taken away in between: after a flush each target that was there when the bytes were written has been given exactly these bytes, once and in order, with the "
     "prefix and suffix of each line where a wrapper adds them; a callback, a status or a user is given each complete line as it is, of whatever length; a target that is no longer there is given nothing and is destroyed; a file appended to keeps what it had, and everything written to a target is in its file once it is closed. "
     "Threads and processes that write lines to one file, or through one rotating log, lose no line, break none and keep their own order; logs that a thread redirects are those of this thread. Numbers, sizes, durations, times and system log messages are printed as what they are, and leave the stream as it was.",
     ["schedules", "inputs", "histories"], "all texts, pieces, trees of targets, histories of changes, and interleavings of writers",
     "Tests print to channels for someone to look at, and compare a few short lines.",
     ["src/eckit/log/Channel.cc", "src/eckit/log/ChannelBuffer.cc", "src/eckit/log/LineBasedTarget.cc", "src/eckit/log/WrapperTarget.cc", "src/eckit/log/PrefixTarget.cc", "src/eckit/log/IndentTarget.cc", "src/eckit/log/ColouringTarget.cc", "src/eckit/log/TeeTarget.cc",
      "src/eckit/log/FileTarget.cc", "src/eckit/log/OStreamTarget.cc", "src/eckit/log/CallbackTarget.cc", "src/eckit/log/RotationTarget.cc", "src/eckit/log/UserChannel.cc", "src/eckit/log/Log.cc", "src/eckit/log/TimeStamp.cc", "src/eckit/log/Bytes.cc",
      "src/eckit/log/BigNum.cc", "src/eckit/log/Seconds.cc", "src/eckit/log/ETA.cc", "src/eckit/log/SysLog.cc"],
     [("bytes", "ChannelBuffer::dumpBuffer, overflow, sync, setTarget"), ("lines", "LineBasedTarget::write, WrapperTarget::write, UserBuffer"), ("many writers", "FileTarget, RotationTarget, Log"), ("values", "BigNum, Bytes, Seconds, TimeStamp, ETA, SysLog")])

prop("C20", "Areas contain exactly the points and boxes that lie inside them",
     "For every bounding box, on any turn of longitude, including those over the antimeridian, global ones and empty ones, and every point: a box contains a point when its latitude is in range and its longitude is east of the west edge by no "
     "more than the width, edges included; it contains another box when all of that box is in it; the intersection with another box is in both, as large as it can be, and missing only when they do not meet; boxes are equal when they have the same "
     "edges on whatever turn; a box is given back by its description. The box around a regional rotated box contains all its points and is not much larger. A polygon contains the points it winds around and those on its edges, "
     "wherever its vertices are and however they are ordered; simplifying keeps its shape, clipping by a convex polygon keeps what they share, and area, centroid and equality are those of the shape.",
     ["inputs"], "all boxes, polygons and points, in particular those with coordinates in common",
     "Tests look at a handful of boxes and points.",
     ["src/eckit/geo/area/BoundingBox.cc", "src/eckit/geo/area/BoundingBoxXY.cc", "src/eckit/geo/area/Polygon.cc", "src/eckit/geo/polygon/Polygon.cc", "src/eckit/geo/polygon/PolygonXY.cc"],
     [("boxes", "BoundingBox::contains, intersects, make_from_area, make_from_spec, bounding_box_equal"), ("boxes around", "BoundingBox::make_from_projection"), ("polygons", "Polygon::contains, clip, simplify, area, centroid")])


prop("C25", "What is put in fabric-attached memory is kept, whoever else works on it",
     "For every history of operations: a list holds the elements pushed, in order, forwards and backwards, until they are popped or erased; a map, or one that allows several entries of a key, holds the entries inserted, finds each by its key, says how many there are, and is merged, erased and cleared as a map in memory is; an "
     "object gives back the bytes and values put in it, and nothing outside it is touched; a handle reads and writes an object as it does a file, and refuses what does not fit; and whoever opens these again by name or by descriptor sees the same. Names, paths, properties and URIs are what their text says, and are given back by it. "
     "When threads or processes work on them at the same time, in whatever order their accesses to the memory come: elements pushed at either end are all there afterwards, once, those of one writer in its order; several that pop at one end of a list remove exactly as many elements as they pop, those of this end; entries that each inserts under keys of its own, "
     "or forces in under the same key, are all there, counted, and found from then on; a key that one replaces, alone in its bucket, has its old or its new value for the others; a list or map that several open at once is created once; those who walk while others push see no element twice, no broken one, and come to an end; and a lock is held by one at a time, and taken over only from one that held "
     "it too long. The session is set up once, whichever thread comes first. (Removing elements where another one pushes to an otherwise empty list, removes the same, or passes by is not claimed.)",
     ["schedules", "histories", "inputs"], "all histories of operations by one, and all orders of the accesses of several",
     "Tests run a few fixed sequences, and some threads that push without any control of their order.",
     ["src/eckit/io/fam/FamList.cc", "src/eckit/io/fam/FamListIterator.cc", "src/eckit/io/fam/FamMap.cc", "src/eckit/io/fam/FamMapIterator.cc", "src/eckit/io/fam/FamMapEntry.h", "src/eckit/io/fam/FamObject.cc", "src/eckit/io/fam/FamRegion.cc", "src/eckit/io/fam/FamHandle.cc",
      "src/eckit/io/fam/FamName.cc", "src/eckit/io/fam/FamObjectName.cc", "src/eckit/io/fam/FamRegionName.cc", "src/eckit/io/fam/FamPath.cc", "src/eckit/io/fam/FamProperty.cc", "src/eckit/io/fam/FamSession.cc", "src/eckit/io/fam/FamSessionManager.cc", "src/eckit/io/fam/FamURIManager.cc"],
     [("lists", "FamList::pushFront, pushBack, popFront, popBack, erase"), ("maps", "FamMap::insert, insertOrAssign, find, erase, lock"), ("objects", "FamObject, FamHandle, FamSession"), ("names", "FamPath, FamName, FamURIManager")])

prop("C26", "Work handed to threads and processes is done once; what tasks report is theirs",
     "Every request pushed to a dispatcher is handled exactly once and destroyed exactly once, after it is handled, whichever thread pushed it, whichever handler failed before, and however the number of threads changes meanwhile; or it is taken out of the queue by a picker, and then not handled. Requests are picked in the order pushed (unless the handler picks otherwise), as many are handled "
     "at a time as there are threads, and threads that wait begin as soon as there is something to pick. A request for worker processes is sent to one worker at a time, which executes it, and the reply to it is what that worker wrote; when the worker fails, exits, is killed, or says less than all, the request is told so (with the text of the error, if the worker could say one), counted from one, and is sent again, "
     "to another worker, as long as it asks for that; a request whose reply came is never sent again, and each is done once. A worker serves request after request, is told of the end of each batch, ends when told to, after as many requests as allowed, and when its parent ends. "
     "A process that was started is active until it ends, and no longer, however early it ends. In the monitor, every living thread of every process has one slot, which no other has; it begins clean; all see in it what its owner last reported (name, status, messages, progress, last text), and nothing else; who is aborted or stopped by another learns it once, at its next report; and the slots of those that ended, in whatever way, can be used by others.",
     ["schedules", "histories", "faults"], "all sets of requests, schedules of threads and processes, and ways in which a worker ends",
     "There are no tests of dispatchers, worker processes and the monitor.",
     ["src/eckit/runtime/Dispatcher.h", "src/eckit/runtime/PipeHandler.cc", "src/eckit/runtime/PipeApplication.cc", "src/eckit/runtime/ProcessControler.cc", "src/eckit/serialisation/PipeStream.cc", "src/eckit/runtime/Monitor.cc", "src/eckit/runtime/TaskInfo.cc", "src/eckit/runtime/Monitorable.cc"],
     [("dispatching", "Dispatcher::push, next, dequeue, reconfigure"), ("workers", "PipeHandler::handle, PipeApplication::run"), ("processes", "ProcessControler::start, active, wait, stop"), ("monitor", "Monitor, TaskInfo")])

prop("C27", "A web server answers each request with its reply, whole, and nothing else",
     "Whatever a client sends, and in whatever pieces, is taken to be exactly the method, path, parameters, headers (whose names are compared without regard to case) and content it spells, with all percent codes decoded, or is refused: a request that is cut, or has less content than it says, ends the connection and never makes the server wait, spin or use memory it was not sent. "
     "Each request is answered by the resource whose path begins it, restricted ones only to those who are allowed, and the reply is one status line, its headers, an empty line and exactly as many bytes as announced: what the resource wrote, with markup characters encoded except where it asks otherwise, or the bytes of the handle it gave; one that fails gives the status of its error and the text of it, and nothing written before. "
     "No part of a request becomes a header or a reply of its own. A JSON resource sends JSON; a template is given with its names replaced and all else as it is; of the files of a folder that is served all are given exactly, and no other file. A server goes on after any client, and keeps no connection open.",
     ["inputs", "schedules", "faults"], "all requests, whole, cut or damaged, all replies, and all numbers of clients at once",
     "There are no tests of the web server but one for a header of a reply.",
     ["src/eckit/web/Url.cc", "src/eckit/web/Html.cc", "src/eckit/web/HttpStream.cc", "src/eckit/web/HttpResource.cc", "src/eckit/web/HttpService.cc", "src/eckit/web/JSONResource.cc", "src/eckit/web/FileResource.cc", "src/eckit/net/HttpHeader.cc"],
     [("requests", "Url::parse, Html::removeHex"), ("replies", "HttpHeader::print, HttpStream::write, HttpResource::dispatch, HttpUser::serve"), ("files", "Html::pathBelow, FileResource::GET, HtmlProvider, ImageProvider"), ("templates", "Html::Include")])

prop("C28", "A name or a specification chooses exactly one generator",
     "For every history of generators added and removed: one is added under a name once, and found and removed by exactly that name; a name or a specification is given the one generator whose pattern (without regard to case) or specification it matches, and is refused if there is none or more than one.",
     ["inputs", "histories"], "all histories of additions and removals, all names and specifications",
     "Tests register a few generators; ambiguous matches are endless.",
     ["src/eckit/spec/Generator.h"],
     [("generators", "GeneratorT::match, regist, unregist, exists, get")])

prop("C29", "Processes that talk through a communicator get what the others sent",
     "With one process or several, whatever the order in which they come: each collective operation (broadcast, gather, scatter, reduce, all-to-all, with equal or different numbers of items) gives every process exactly the items that the others gave for it, at the places said, reduced by the operation said (the place of an extreme is the first one's), writes nothing else, and leaves what is sent as it was. "
     "Each message is received once, whole, by the one it is sent to, by the first receive that asks for its source and tag, with the source, tag and number of items of the one that was sent; of those that a receive could take, one sender's earliest; what was handed to a blocking send may be changed at once. A message longer than the room for it is refused and nothing is written past it. "
     "A probe sees a message exactly if there is one. A file read by one is given to all as it is, or refused by all. A part of the processes talks among itself, in the same order, and is known by its name until it is removed; groups of processes are combined as the ordered sets they are. (Receives that are waited for in another order than they were posted are not claimed.)",
     ["schedules", "inputs", "histories"], "all sequences of operations, numbers of processes, roots, counts, displacements and tags, and orders of arrival",
     "Tests do each operation once, with a single process mostly.",
     ["src/eckit/mpi/Comm.h", "src/eckit/mpi/Comm.cc", "src/eckit/mpi/Serial.cc", "src/eckit/mpi/Parallel.cc", "src/eckit/mpi/SerialRequest.h", "src/eckit/mpi/DataType.cc", "src/eckit/mpi/Operation.cc", "src/eckit/mpi/Buffer.h", "src/eckit/mpi/ParallelGroup.cc"],
     [("collectives", "Comm::gatherv, scatterv, allToAllv, allReduce"), ("messages", "Serial::receive, wait, probe, Parallel::receive"), ("parts", "Comm::split, deleteComm"), ("files", "Comm::broadcastFile")])
