PROPS = {}

PROPS["C01"] = dict(
    parts=[dict(src=["btree.cc"], comps=["eckit"])],
    rule="random histories of set/get/range/count/flush/sync/close/reopen over several key types, page sizes and offsets; "
         "non-trivial when the final tree holds more than ten keys",
    require={"sets": 10000, "reopens": 100, "ranges_nontrivial": 100},
)

PROPS["C02"] = dict(
    parts=[dict(src=["io_read.cc"], comps=["eckit"], env={"ECKIT_DATAHANDLE_SAVEINTO_BUFFER_SIZE": "777", "ECKIT_MAX_POOLED_HANDLES": "2"})],
    rule="random trees of handles over files, memory, parts, mappings, pools and short-reading sources, with random read/seek/skip/rewind/"
         "restart/reopen histories; non-trivial when the content is not empty",
    require={"reads": 5000, "seeks": 1000, "saved": 100, "reanimated": 20, "pooled_reads": 500, "peek_cases": 100},
)

PROPS["C03"] = dict(
    parts=[dict(src=["io_write.cc"], comps=["eckit"]),
           dict(src=["io_write.cc"], comps=["eckit"], variant="tsan", workloads="write_trees|write_fail", scale=0.3)],
    rule="random trees of writing handles (file, overwrite, append, memory, AIO, raw, descriptor, buffered, asynchronous, tee, multi), random "
         "chunks, flushes and seeks, and failing targets; non-trivial when something is written",
    require={"writes": 5000, "flushes": 50, "leaves": 1000, "write_errors": 200, "write_seeks": 500},
)

PROPS["C04"] = dict(
    parts=[dict(src=["io_transfer.cc"], comps=["eckit"], env={"ECKIT_DATAHANDLE_SAVEINTO_BUFFER_SIZE": "777"}),
           dict(src=["io_transfer.cc"], comps=["eckit"], variant="tsan", env={"ECKIT_DATAHANDLE_SAVEINTO_BUFFER_SIZE": "777"})],
    rule="random transfers with short reads, read and write failures at random offsets (exception, short count, negative count) and restart requests from "
         "either side; non-trivial when the source is not empty",
    require={"transfers_ok": 200, "transfers_failed": 100, "transfers_restarted": 50, "wrong_estimates": 50, "compare_same": 50, "compare_different": 50},
)

PROPS["C05"] = dict(
    parts=[dict(src=["containers.cc"], comps=["eckit"])],
    rule="random histories of operations on each container against a reference model; non-trivial when the history leaves or evicts entries",
    require={"lru_inserts": 1000, "lru_purges": 500, "trie_inserts": 1000, "densemap_checks": 500, "denseset_merges": 200, "bloom_keys": 1000,
             "circular_reads": 1000, "consolidated": 50, "recycler_pops": 50},
)

PROPS["C06"] = dict(
    parts=[dict(src=["threads.cc"], comps=["eckit"], parallel=4), dict(src=["threads.cc"], comps=["eckit"], variant="tsan", scale=0.7, parallel=4)],
    rule="random numbers of producers, consumers, pool threads, tasks, waiters, sizes, resizes, interruptions and failures with injected delays; "
         "distinct counts the delivery orders and configurations seen",
    require={"queue_elements": 3000, "queue_interrupts": 10, "pool_tasks": 1000, "pool_waits": 50, "pool_lists": 20, "pool_failed": 5,
             "pc_payloads": 1000, "pc_failures": 20, "threads_run": 100},
)

PROPS["C07"] = dict(
    parts=[dict(src=["values.cc"], comps=["eckit"])],
    rule="random trees of values (nil, bool, 64-bit numbers, doubles, strings, dates, lists, maps), random sharing and mutation histories, random triples for the order; "
         "non-trivial when the tree has more than one node",
    require={"value_trees": 150, "mutations": 1000, "map_removes": 30, "arith": 2000, "close_numbers": 300},
)

PROPS["C08"] = dict(
    parts=[dict(src=["streams.cc"], comps=["eckit"])],
    rule="random sequences of items of 25 types and of objects, through six kinds of streams, read back whole, as other types, truncated at each byte and with damaged bytes",
    require={"read_string": 100, "read_object": 100, "pipes": 50, "type_mismatches": 200, "cuts": 5000, "overflows": 100, "objects": 150, "objects_refused": 50, "objects_by_hand": 50, "exceptions_sent": 50},
)

PROPS["C09"] = dict(
    parts=[dict(src=["json.cc"], comps=["eckit"])],
    rule="random values written as text in random styles (spacing, escapes, number formats, indentation, quoting, flow and block), values written by the library, and "
         "edited or truncated texts compared with a strict parser; non-trivial when the value has more than one node",
    require={"yaml_aliases": 150, "yaml_merged": 3, "yaml_folded": 100, "json_deep": 100, "yaml_texts": 100, "json_docs": 500, "json_written": 500, "json_cuts": 1000, "edited_refused": 500, "edited_valid": 50, "yaml_docs": 300, "yaml_edited_refused": 50},
)

PROPS["C10"] = dict(
    parts=[dict(src=["types.cc"], comps=["eckit"])],
    rule="random and calendar-edge dates of the years 1000-9998, times, seconds, fractions up to 2^30, versions, strings and floating point neighbours, and edited text of each; "
         "distinct counts different inputs",
    require={"large_results": 500, "huge_results": 500, "dates": 1000, "date_texts": 500, "date_texts_refused": 500, "time_texts": 500, "time_texts_refused": 300, "datetimes": 1000, "fraction_sums": 500, "versions": 500,
             "float_equal": 1000, "float_different": 1000},
)

PROPS["C11"] = dict(
    parts=[dict(src=["text.cc"], comps=["eckit", "eckit_codec"], libs=["-lcrypto"])],
    rule="random texts, separators, variables, patterns, numbers, byte strings, bit sequences, sequences with repeats, hypercubes and node lists; distinct counts different inputs",
    require={"tokenized": 1000, "substitutions": 300, "globs_matched": 100, "globs_unmatched": 50, "numbers": 2000, "base64": 400, "bit_items": 2000, "run_trips": 500,
             "digests_then_reset": 100, "cube_elements": 2000, "rendezvous": 500},
)

PROPS["C12"] = dict(
    parts=[dict(src=["trees.cc"], comps=["eckit", "eckit_geometry"])],
    rule="random sets of points in one to four dimensions (clustered, on lattices with many equal coordinates, duplicated, of very different magnitudes), built at once or inserted one by one, "
         "in memory and in files opened again; distinct counts different sets",
    require={"queries": 1500, "iterated": 5000, "inserted": 1000, "mapped_trees": 100},
)

PROPS["C13"] = dict(
    parts=[dict(src=["processes.cc"], comps=["eckit"])],
    rule="two to four processes at once with random delays, some killed inside a lock or at a counted system call, then new processes taking over; distinct counts different "
         "outcomes (orders, numbers of operations, sets of transactions)",
    require={"critical_sections": 1000, "refused_trylocks": 5, "deaths_in_a_lock": 10, "uses": 200, "array_items": 2000, "transactions": 200, "recovered": 100, "crashes": 15,
             "archived": 20, "cache_gets": 200, "created_once": 20, "limited_caches": 20},
)
PROPS["C14"] = dict(
    parts=[dict(src=["paths.cc"], comps=["eckit"])],
    rule="random paths of up to 15 components compared with a lexical model and with the inode they lead to; histories of file operations against a model of the tree; random trees with links and "
         "patterns against fnmatch; URIs assembled from parts; simulated file systems; distinct counts different inputs and histories",
    require={"names": 5000, "places": 500, "file_operations": 1000, "patterns": 500, "entries": 500, "unique_names": 1000, "modes": 1000, "uris": 3000, "expansions": 500, "selections": 5000},
)

PROPS["C15"] = dict(
    parts=[dict(src=["config.cc"], comps=["eckit", "eckit_option"]),
           dict(src=["config.cc"], comps=["eckit", "eckit_option"], variant="tsan", workloads="configuration_threads|resource_threads")],
    rule="histories of up to 25 settings, merges, removals, copies and assignments among up to 5 configurations against a model tree; random configuration files, environment and arguments against a model of the precedence; "
         "random tables; command lines assembled from up to 7 options of 8 kinds; threads under TSan; distinct counts different final contents and command lines",
    require={"sets": 2000, "refused_sets": 100, "parts": 20, "read_back": 100, "threads": 200, "found": 200, "defaults": 200, "hits": 100, "accepted": 300, "refused": 50},
)

PROPS["C16"] = dict(
    parts=[dict(src=["linalg.cc"], comps=["eckit", "eckit_linalg", "eckit_maths", "eckit_geo"], scale=6)],
    rule="matrices and vectors of up to 12 rows (some of 200) with every back end, compared with long double arithmetic within its rounding error, results in guarded memory; histories of up to 7 operations on a "
         "sparse matrix against a list of entries; tensors of up to 5 dimensions in both layouts; hulls of random points checked for containment and Euler's formula; distinct counts different shapes and histories",
    require={"operations": 1000, "products_eigen": 100, "products_generic": 100, "products_lapack": 30, "products_openmp": 100, "tensors": 200, "hulls": 100, "singular": 10},
)

PROPS["C17"] = dict(
    parts=[dict(src=["codec.cc"], comps=["eckit", "eckit_codec"])],
    rule="up to four records of one to eight items of 13 types, in a file after each other or after junk, or in memory, with each compression; every single byte of records damaged or cut at random, writing to targets "
         "that become full; links between up to six records in four directories; distinct counts different records",
    require={"data": 300, "records": 400, "items_read": 2000, "printed": 50, "full": 800, "truncated": 2000, "detected": 1000, "harmless": 500, "links": 300},
)

PROPS["C18"] = dict(
    parts=[dict(src=["sphere.cc"], comps=["eckit", "eckit_maths", "eckit_geometry", "eckit_spec", "eckit_geo"])],
    rule="points anywhere, at and next to poles, quadrants, antipodes and each other, angles up to 1e9 degrees, radii from 1e-2 to 1e8, against vectors and integrals in long double; distinct counts different points or boxes",
    require={"angles": 20000, "points": 10000, "positions": 10000, "distances": 10000, "antipodes": 100, "close": 100, "latitudes": 5000, "longitudes": 5000, "meridians": 200, "courses": 2000, "areas": 1000},
)

PROPS["C19"] = dict(
    parts=[dict(src=["projection.cc"], comps=["eckit", "eckit_maths", "eckit_geometry", "eckit_spec", "eckit_geo"])],
    rule="equidistant cylindrical, Mercator, Lambert conformal and azimuthal, Albers, polar stereographic, rotation, stretching and Cartesian projections with any parameters, alone, composed, reversed and built again from "
         "their descriptions, at points anywhere away from where they are singular, against their definitions in long double; distinct counts different projections",
    require={"points": 50000, "described": 1000, "composed": 2000, "eqc": 500, "mercator": 500, "lcc": 500, "aea": 500, "laea": 500, "polar_stereographic": 500, "rotation": 500, "stretch": 500, "ll-to-xyz": 500},
)

PROPS["C20"] = dict(
    parts=[dict(src=["area.cc"], comps=["eckit", "eckit_maths", "eckit_geometry", "eckit_spec", "eckit_geo"])],
    rule="bounding boxes with any edges on any turn of longitude, against interval arithmetic on multiples of 1/8 degree: points on and next to the edges, boxes in boxes, intersections, equality, descriptions; polygons (stars, combs, "
         "spirals, convex) against winding angles in long double, clipping against half-planes; boxes around rotated boxes against samples; distinct counts different pairs of boxes, polygons and boxes around",
    require={"points-in": 20000, "points-out": 20000, "boxes-in": 3000, "boxes-out": 10000, "intersections": 5000, "double-intersections": 200, "apart": 3000, "described": 10000, "polygon-in": 5000, "polygon-out": 5000, "on-edge": 500, "rings": 500, "clipped": 1000, "projected-points": 200000, "poles-in": 25, "poles-out": 900},
)

PROPS["C21"] = dict(
    parts=[dict(src=["grid.cc"], comps=["eckit", "eckit_maths", "eckit_geometry", "eckit_spec", "eckit_codec", "eckit_geo"])],
    rule="grids of all kinds (regular and Gaussian, reduced with any 'pl', reduced lon-lat, HEALPix, unstructured) over any area, in any of the scan orders that iterators know, with any reference, against points computed from the definition in "
         "integers or long double; every point, walks, jumps, first and last, box around, description and uid, cropping, renumbering; Gaussian latitudes and weights from the Legendre polynomials; distinct counts different descriptions",
    require={"points": 300000, "again": 1500, "cropped": 100, "regular_ll": 500, "regular_gg": 150, "reduced_gg": 100, "nearly-known": 20, "reduced_ll": 80, "healpix": 80, "unstructured": 80, "reordered": 40, "cut": 20, "empty-rows": 3},
)
PROPS["C22"] = dict(
    parts=[dict(src=["sql.cc"], comps=["eckit", "eckit_sql"])],
    rule="each query over tables of its own gives the rows computed by an evaluator that loops over all combinations of rows; as text, it has those rows; queries of random functions and garbled ones are executed or refused with an exception, under ASan and UBSan, and a valid query of the same session is right afterwards; a distinct input is a query",
    require={"plain queries": 8000, "grouped queries": 2000, "aggregate queries": 1000, "distinct queries": 2500, "ordered queries": 4000, "join queries": 3000, "repeated executions": 2500, "rows one at a time": 3000, "tables of several frames": 900, "rows given": 50000,
             "function queries executed": 1500, "garbled queries executed": 120, "queries refused": 3000, "queries after hostile ones": 5500, "queries written as text": 3000, "texts compared with those of new sessions": 500, "fields of text": 30000, "functions evaluated": 20000, "functions of missing values": 1000},
)
PROPS["C23"] = dict(
    parts=[dict(src=["net.cc"], comps=["eckit"]),
           dict(src=["net.cc"], comps=["eckit"], variant="tsan", workloads="socket|stream|multi|service|connector", scale=0.3)],
    rule="a case is one set of connections over the loopback interface, mostly through a peer that forwards in pieces of any size, delays and cuts; each byte, object, datagram and answer received is compared with the one sent; a distinct input is the data and the way it is cut into pieces",
    require={"TCPHandle": 20, "InstantTCPSocketHandle": 20, "TCPSocketHandle": 20, "MultiSocketHandle": 20, "accepted by a proxy": 15, "refused by a proxy": 8, "answers": 500, "answers kept": 6, "answers of connectors": 300, "connections lost": 8, "broken streams": 30,
             "cut connections": 20, "bytes": 5000000, "pieces": 50000, "datagrams": 500, "headers": 60, "iostreams": 20, "multisockets": 60, "objects": 1500, "handles sent": 8},
)

PROPS["C25"] = dict(
    parts=[dict(src=["fam.cc"], comps=["eckit"], libs=["-lcrypto"]),
           dict(src=["fam.cc"], comps=["eckit"], libs=["-lcrypto"], variant="tsan", workloads="sessions", scale=1)],
    rule="a case is one history of operations on lists, maps, objects or handles in fabric-attached memory compared with a model, or one set of threads whose accesses to that memory are ordered by a schedule chosen at random, or of processes; a distinct input is the contents at the end, or the schedule",
    require={"elements compared": 15000, "lists opened again": 1500, "maps opened again": 600, "maps compared": 1500, "maps merged": 200, "objects compared": 15000, "names": 3000, "handles": 700, "refused": 400, "regions created": 3000, "atomic operations": 700, "elements pushed at once": 8000, "elements removed at once": 3500, "entries inserted at once": 2500, "entries seen while they are replaced": 700, "walks while others push": 1200, "changes of thread": 80000, "locks taken": 1500, "locks held by one whose clock is ahead": 100, "changes of writer seen": 40},
)
PROPS["C24"] = dict(
    parts=[dict(src=["logs.cc"], comps=["eckit"]),
           dict(src=["logs.cc"], comps=["eckit"], variant="tsan", workloads="shared|channels|rotating", scale=0.3)],
    rule="a case is one history of writes to channels whose targets are changed between them, or one set of threads or processes writing lines, or one set of values printed; what each target was given is compared with what was written; a distinct input is the set of targets and the number of operations, and the order in which lines of many writers came",
    require={"recording targets": 300, "stream targets": 300, "callback targets": 300, "file targets": 300, "indentations undone": 50, "bytes compared": 1000000, "messages to the user": 1000, "files shared by processes": 8, "rotating logs": 8, "days of rotating logs": 100,
             "files shared by threads": 8, "threads with logs of their own": 20, "changes of writer seen": 100, "values printed": 20000},
)
PROPS["C26"] = dict(
    parts=[dict(src=["work.cc"], comps=["eckit"]),
           dict(src=["work.cc"], comps=["eckit"], variant="tsan", workloads="dispatching", scale=0.3)],
    rule="a case is one set of requests handed to threads or worker processes, some of which fail, or one history of tasks in processes and threads that share a monitor; a distinct input is the order in which requests were taken, or the sequence of events",
    require={"requests handled": 5000, "requests taken out": 20, "dispatchers that worked in parallel": 30,
             "dispatchers whose number of threads was changed": 15, "meetings": 8, "requests executed by workers": 120,
             "failing executions": 25, "errors told by workers": 6, "ends of batches": 50, "worker processes": 80,
             "processes started and ended": 250, "slots claimed": 350, "slots claimed after the end of a process": 40,
             "tasks looked at": 1500, "tasks aborted": 25, "tasks stopped": 15, "texts read": 10000},
)
PROPS["C27"] = dict(
    parts=[dict(src=["web.cc"], comps=["eckit", "eckit_web"], hang_s=25),
           dict(src=["web.cc"], comps=["eckit", "eckit_web"], variant="tsan", workloads="server", scale=0.3, hang_s=40)],
    rule="a case is one request, text, page, reply or template, or one server with its clients; a distinct input is the text sent",
    require={"requests": 1000, "requests with content": 400, "requests cut": 6000, "requests damaged": 4000, "requests refused": 2500, "texts coded": 7000, "pages": 400, "bytes of pages": 6000000, "replies": 800,
             "replies with an error": 400, "replies in JSON": 8, "templates": 180, "files served": 500, "paths that lead elsewhere": 1400, "replies of the server": 300, "nonsense sent to the server": 70, "clients that went away": 70},
)

PROPS["C28"] = dict(
    parts=[dict(src=["spec.cc"], comps=["eckit", "eckit_spec"], workloads="spec_generators")],
    rule="up to 12 additions and removals of generators with names and patterns, then all names and many specifications looked for; distinct counts different sets of generators",
    require={"names_found": 500, "names_ambiguous": 100, "specs_named": 300, "specs_ambiguous": 50},
)
PROPS["C29"] = dict(
    parts=[dict(src=["mpi.cc"], comps=["eckit", "eckit_mpi"], hang_s=200)],
    rule="a case is one sequence of collectives and messages that all processes of a world carry out, the arguments of each process known to all, and every result compared with what they say; a distinct input is the state of the random numbers at its end",
    require={"one: collectives": 10000, "one: messages": 10000, "one: displacements": 2000, "one: parts": 500, "one: files": 500, "messages too long": 200},
)
