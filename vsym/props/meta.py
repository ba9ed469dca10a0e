"""Statements of the properties (source of properties.jsonl and MANIFEST.json)."""
HASH = "consistency_check/hash/hash_dirs_mpi.py"
CE = "consistency_check/eagle/check_eagle_file_presence.py"
FW = "fortran/hdf5_wrapper/src/"
CP = "consistency_check/p-gadget3/check_pgadget3_file_presence.py"
PS = "python/virgo/mpi/parallel_sort.py"
WHY_MPI = ("The repository's MPI tests run one random data set per size and dtype on the available number of ranks; "
           "they cannot cover every distribution over ranks, every tie pattern and every value.")
PROPS = {
    "C01": dict(
        title="Parallel sort is a correct in-place global sort with a valid index",
        statement="After sorting a distributed 1D array, the concatenation of the per-rank arrays in rank order is "
                  "the ascending sort of the original elements (same multiset, dtype unchanged) and every rank "
                  "still holds the number of elements it started with, in the array object it passed. If a sorting "
                  "index was requested, it is a permutation of the global indexes and fetching the original "
                  "elements by it reproduces the sorted array.",
        over=["inputs", "configurations"],
        quant="every element value and tie pattern, every distribution of elements over ranks including empty ranks",
        why=WHY_MPI, files=[PS], mech=[("parallel_sort", PS), ("find_splitting_points", PS), ("weighted_median", PS)]),
    "C02": dict(
        title="Repartition preserves global order for any source and target layout",
        statement="Repartitioning a distributed array to requested per-rank sizes (with the same total) gives each "
                  "rank exactly its requested number of rows, and the rows concatenated in rank order are identical "
                  "to the input rows in rank order. This holds for any number of trailing dimensions, any memory "
                  "layout of the input and any empty ranks; the input is unchanged.",
        over=["inputs", "configurations"],
        quant="every value, source distribution, target distribution, trailing shape and memory layout",
        why=WHY_MPI + " No test uses Fortran-ordered or strided arrays.",
        files=[PS], mech=[("repartition", PS), ("my_alltoallv", PS)]),
    "C03": dict(
        title="Fetching distributed elements returns exactly the requested rows",
        statement="Fetching elements of a distributed array by global index returns, on every rank and in the order "
                  "requested, exactly the rows with those global indexes, including repeated indexes, ranks that "
                  "request nothing and ranks that hold nothing. If a result array is supplied it is filled with the "
                  "same values instead; source and index arrays are unchanged.",
        over=["inputs", "configurations"],
        quant="every index value, distribution, trailing shape, memory layout",
        why=WHY_MPI, files=[PS], mech=[("fetch_elements", PS), ("my_alltoallv", PS)]),
    "C04": dict(
        title="Parallel match finds an equal element exactly when one exists",
        statement="For each element of the first distributed array the match returns the global index of an element "
                  "of the second array with an equal value, and -1 if and only if there is none. This holds with "
                  "duplicates in either array, empty ranks, empty arrays, and with the second array declared "
                  "already sorted (if it is); the inputs are unchanged.",
        over=["inputs", "configurations"],
        quant="every pair of value assignments and distributions over ranks",
        why=WHY_MPI, files=[PS], mech=[("parallel_match", PS)]),
    "C05": dict(
        title="Parallel unique returns each distinct value once with its count",
        statement="The unique operation on a distributed array returns a distributed array whose concatenation is "
                  "strictly increasing and contains exactly the distinct input values, and the optional counts are "
                  "the numbers of occurrences over all ranks. With repartitioning requested, ranks hold numbers of "
                  "values differing by at most one; the input is unchanged.",
        over=["inputs", "configurations"],
        quant="every value assignment, tie pattern across rank boundaries and distribution; all option combinations",
        why=WHY_MPI, files=[PS], mech=[("parallel_unique", PS), ("repartition", PS)]),
    "C06": dict(
        title="Distributed reductions and bin counts equal the serial operation",
        statement="Applying updates to elements of a distributed array by global index gives the same array as "
                  "applying all updates serially with the given operator, wherever updates and elements live and "
                  "however often an index repeats. The parallel bin count equals the serial weighted or unweighted "
                  "bin count of the concatenated input, padded to the minimum length or stored in the supplied "
                  "result, for every integer input type.",
        over=["inputs", "configurations"],
        quant="every index and value assignment, distribution of updates and elements, operator kind, dtype",
        why=WHY_MPI, files=[PS], mech=[("reduce_elements", PS), ("parallel_bincount", PS)]),
    "C07": dict(
        title="Bulk exchange delivers every element to the right place and ends",
        statement="The all-to-all exchange with arbitrary counts and displacements places exactly the elements sent "
                  "by rank i to rank j in j's receive region for i, whichever method is selected and however large "
                  "the messages, and touches nothing else. The pairwise exchange delivers the complete buffer in "
                  "both directions for any lengths, including when it must be split into several messages. Every "
                  "call returns on every rank under synchronous message semantics.",
        over=["inputs", "configurations", "schedules"],
        quant="every count matrix, displacement, method, number of ranks and element size up to the bounds",
        why=WHY_MPI + " They only use even counts far below the 100 MiB message limit.",
        files=[PS], mech=[("my_alltoallv", PS), ("sendrecv", PS)]),
    "C08": dict(
        title="Gathering an array concatenates the local arrays in rank order",
        statement="Gathering returns, on the destination rank (or on all ranks), the concatenation of the local "
                  "arrays in rank order along the requested axis, with unchanged dtype, and nothing on other ranks. "
                  "This holds for every axis (negative included), any rank holding no elements, and any memory "
                  "layout; the inputs are unchanged.",
        over=["inputs", "configurations"],
        quant="every value, distribution, number of dimensions, axis, root, memory layout",
        why="There is one test with random 1D-3D data on whatever number of ranks the tests run on.",
        files=["python/virgo/mpi/gather_array.py"],
        mech=[("gather_array", "python/virgo/mpi/gather_array.py"),
              ("allgather_array", "python/virgo/mpi/gather_array.py")]),
    "C09": dict(
        title="Particle group membership follows group lengths and offsets",
        statement="Given distributed group lengths and offsets, a particle at global position p is assigned to the "
                  "group whose range [offset, offset+length) contains p and -1 if there is none, and its rank in the "
                  "group is p minus the group's offset. The result does not depend on how groups and particles are "
                  "distributed over ranks or on the integer types used; the inputs are unchanged.",
        over=["inputs", "configurations"],
        quant="every set of lengths and gaps, distribution of groups and particles, integer type",
        why="There is no deterministic test of gaps, empty groups and boundaries crossing ranks together.",
        files=["python/virgo/mpi/util.py"],
        mech=[("group_index_from_length_and_offset", "python/virgo/mpi/util.py")]),
    "C10": dict(
        title="Ranks without data or with bad arguments behave like the rest",
        statement="Ranks that have no array get a zero-size array with the dtype and trailing shape the other ranks "
                  "have, ranks that have one get it back unchanged, and if no rank has one all get nothing. Command "
                  "line arguments parsed on one rank are the same on all ranks; if they are invalid the program "
                  "ends on every rank, with an error message from that one rank only.",
        over=["inputs", "configurations"],
        quant="every subset of ranks without data, dtype, shape; every valid and invalid command line",
        why="Tests use one arrangement of missing arrays and never make argument parsing fail on several ranks.",
        files=["python/virgo/mpi/util.py"],
        mech=[("replace_none_with_zero_size", "python/virgo/mpi/util.py"),
              ("broadcast_dtype_and_dims", "python/virgo/mpi/util.py"),
              ("MPIArgumentParser", "python/virgo/mpi/util.py")]),
    "C11": dict(
        title="Halo matching picks the halo sharing most particles",
        statement="For each halo the match is the halo of the other snapshot containing the largest number of its "
                  "particles, found by unique id, the lowest numbered one on ties, and -1 if none of its particles "
                  "is in any halo there. A match is consistent exactly when the matched halo's own match is the "
                  "original halo. Neither depends on how halos and particles are distributed over ranks.",
        over=["inputs", "configurations"],
        quant="every id permutation, membership assignment, tie, selection mask and distribution over ranks",
        why="The halo matching module has no tests.",
        files=["python/virgo/mpi/merger_tree.py"],
        mech=[("match_halos", "python/virgo/mpi/merger_tree.py"),
              ("consistent_match", "python/virgo/mpi/merger_tree.py")]),
    "C12": dict(
        title="Collective dataset reads and writes are exact, complete and end",
        statement="A collective read returns on each rank, concatenated in rank order, exactly the rows of the "
                  "dataset, and a collective write stores exactly the concatenation of the ranks' arrays, with the "
                  "right dtype and shape, whatever the distribution, buffer size, type and number of dimensions. "
                  "Every call returns on every rank and all ranks take part in the same collective transfers. "
                  "Requested compression and chunking apply when valid and never make the write fail.",
        over=["inputs", "configurations", "schedules"],
        quant="every row count per rank (0 included), value, dtype, trailing shape, transfer buffer size, file mode",
        why="The collective reader and writer are only reached on data far smaller than one transfer buffer.",
        files=["python/virgo/mpi/parallel_hdf5.py"],
        mech=[("collective_read", "python/virgo/mpi/parallel_hdf5.py"),
              ("collective_write", "python/virgo/mpi/parallel_hdf5.py"),
              ("compress_dcpl", "python/virgo/mpi/parallel_hdf5.py")]),
    "C13": dict(
        title="Multi-file reads return all rows in file order",
        statement="Reading datasets from a set of files gives, concatenated over ranks, the rows of all files in "
                  "file order, for any number of ranks against any number of files, any naming style and any files "
                  "without the dataset or group. Rows of different datasets with the same length stay aligned, and "
                  "the per-file counts and file numbers reported match the contents. Data absent everywhere is "
                  "reported as an error, on every rank.",
        over=["inputs", "configurations"],
        quant="every row count per file (0 and missing included), value, ranks-to-files ratio, way of naming files",
        why="The tests of the multi-file reader use a few regular layouts; none has missing data or several ranks "
            "sharing files with uneven sizes.",
        files=["python/virgo/mpi/parallel_hdf5.py"],
        mech=[("MultiFile.read", "python/virgo/mpi/parallel_hdf5.py"),
              ("MultiFile.get_elements_per_file", "python/virgo/mpi/parallel_hdf5.py"),
              ("assign_files", "python/virgo/mpi/parallel_hdf5.py"),
              ("substitute_file_nr", "python/virgo/mpi/parallel_hdf5.py")]),
    "C14": dict(
        title="Multi-file writes put every row in the file it belongs to",
        statement="Writing distributed data to a set of files with given per-file counts puts, in each file, exactly "
                  "the rows that belong there in order, so that reading the set back gives the original data. "
                  "Existing contents of the files are kept when appending, attributes are stored, and every rank "
                  "returns.",
        over=["inputs", "configurations"],
        quant="every per-file row count, distribution over ranks, ranks-to-files ratio, value, file mode",
        why="Tests write back only what they read with the same distribution.",
        files=["python/virgo/mpi/parallel_hdf5.py"],
        mech=[("MultiFile.write", "python/virgo/mpi/parallel_hdf5.py")]),
    "C15": dict(
        title="Range assignment and range sums treat each range exactly",
        statement="Assigning values to ranges changes exactly the elements of each range to that range's value and "
                  "nothing else; several ranges which overlap, are out of order or leave the array are refused. The "
                  "sum over ranges gives for each range the (weighted, normalised) sum of its elements along the "
                  "first dimension, in the requested type, and zero for ranges with no elements.",
        over=["inputs"],
        quant="every set of sorted non-overlapping ranges with zero lengths and gaps, value, weight, type, dimension",
        why="These functions have no tests.",
        files=["python/virgo/util/ranges.py"],
        mech=[("assign_ranges", "python/virgo/util/ranges.py"), ("sum_ranges", "python/virgo/util/ranges.py")]),
    "C16": dict(
        title="Serial value matching returns the right index or -1",
        statement="For every value looked up, the serial match returns an index in the second array holding that "
                  "value, or -1 exactly when the value is not there. This holds for any order and duplicates of the "
                  "input, with sorted input or a precomputed sorting index, for empty arrays and any byte order; "
                  "the inputs are unchanged.",
        over=["inputs"],
        quant="every pair of arrays up to the bounds, value, type and byte order",
        why="The function has no tests.",
        files=["python/virgo/util/match.py"],
        mech=[("match", "python/virgo/util/match.py")]),
    "C17": dict(
        title="Peano-Hilbert keys are an invertible, nested, space filling order",
        statement="Each grid position has exactly one key in [0, 8**bits) and the inverse function returns the "
                  "position; consecutive keys belong to adjacent cells, the key of an enclosing coarser cell is the "
                  "leading part of the key, and keys are those of the Gadget code. Results for a position do not "
                  "depend on where it is in the input array. Keys of coordinates are those of the enclosing cell.",
        over=["inputs", "configurations"],
        quant="every grid position, key and number of bits within the bounds, length of the input arrays",
        why="The Peano-Hilbert functions have no tests.",
        files=["python/virgo/util/peano.py"],
        mech=[("peano_hilbert_keys", "python/virgo/util/peano.py"),
              ("peano_hilbert_key_inverses", "python/virgo/util/peano.py"),
              ("peano_hilbert_keys_from_coords", "python/virgo/util/peano.py")]),
    "C19": dict(
        title="Binary files are read as laid out, in the right byte order",
        statement="Every block declared in a binary file returns, for any selection, exactly the bytes at its "
                  "position interpreted with its type, shape and the byte order in force, whichever way and whenever "
                  "the byte order is set; blocks outside the file and records with wrong markers are refused. "
                  "all_bytes_used is true only if the blocks tile the file, and copies and hashes contain every "
                  "element. The number of files kept open stays within the limit.",
        over=["inputs", "configurations", "histories"],
        quant="every element value, layout of the listed kinds, marker value, file length, sequence of accesses",
        why="The binary file reader has no tests.",
        files=["python/virgo/util/read_binary.py"],
        mech=[("BinaryDataset.__getitem__", "python/virgo/util/read_binary.py"),
              ("BinaryFile.end_fortran_record", "python/virgo/util/read_binary.py"),
              ("BinaryFile.add_dataset", "python/virgo/util/read_binary.py"),
              ("BinaryFile.write_binary", "python/virgo/util/read_binary.py")]),
    "C18": dict(
        title="Partial formatting and multi-file concatenation keep what they should",
        statement="Partial formatting substitutes exactly the fields given and leaves every other field as written, so "
                  "that formatting in steps equals formatting at once, and a missing field is an error unless it may be "
                  "ignored. Reading a list of files returns for each dataset the concatenation, in list order and along "
                  "the requested axis, of the arrays in the files that have it, with the type and shape they have.",
        over=["inputs", "configurations"],
        quant="every sequence of template pieces, given/None/missing state, file list, row count and missing dataset",
        why="Neither function has tests.",
        files=["python/virgo/util/partial_formatter.py", "python/virgo/util/read_multi.py"],
        mech=[("PartialFormatter", "python/virgo/util/partial_formatter.py"),
              ("read_multi", "python/virgo/util/read_multi.py")]),
    "C20": dict(
        title="Merger tree indexes and branch masses describe the trees given",
        statement="Depth first indexing numbers every node once so that each node's progenitors form the contiguous "
                  "range up to its last progenitor, most massive branch first, with the end of the main branch where "
                  "following first progenitors leads. Tree and branch masses, main progenitors and ties equal their "
                  "definitions for any order and ids of the nodes. The exported table holds every node with these "
                  "columns and a matching type definition.",
        over=["inputs"],
        quant="every forest, node order, id, branch mass order and tie, and split into files, up to the bounds",
        why="The database modules have no tests.",
        files=["python/virgo/database/index_trees.py", "python/virgo/database/make_dtrees_table.py"],
        mech=[("depth_first_index", "python/virgo/database/index_trees.py"),
              ("find_main_progenitor", "python/virgo/database/index_trees.py"),
              ("find_progenitor_tree_mass", "python/virgo/database/index_trees.py"),
              ("find_progenitor_branch_mass_delucia", "python/virgo/database/index_trees.py"),
              ("make_dtrees_table", "python/virgo/database/make_dtrees_table.py")]),
    "C22": dict(
        title="Catalogue formats are read with the layout their codes write",
        statement="Every catalogue reader (Gadget group, subgroup, id and merger tree files of all versions, Rockstar, "
                  "Velociraptor, the simulation specific classes) returns every field of a file laid out as the format "
                  "prescribes, with its type and shape, for any number of groups, subgroups, ids and halos, any format "
                  "flags, and, where the reader detects the byte order, either byte order. The blocks cover the file.",
        over=["inputs", "configurations"],
        quant="every element value, combination of counts within bounds, format flag, id/float size and byte order",
        why="None of the format classes has tests.",
        files=["python/virgo/formats/subfind_lgadget2.py", "python/virgo/formats/subfind_lgadget3.py",
               "python/virgo/formats/subfind_pgadget3.py", "python/virgo/formats/subfind_gadget4.py",
               "python/virgo/formats/rockstar.py", "python/virgo/formats/velociraptor.py",
               "python/virgo/formats/mpa_trees.py", "python/virgo/sims/mxxl.py", "python/virgo/sims/millennium.py"],
        mech=[("SubTabFile", "python/virgo/formats/subfind_lgadget3.py"),
              ("SubTabFile", "python/virgo/formats/subfind_pgadget3.py"),
              ("SubTabFile", "python/virgo/formats/subfind_gadget4.py"),
              ("TreeFile", "python/virgo/formats/mpa_trees.py"),
              ("PropertiesFile", "python/virgo/formats/velociraptor.py")]),
    "C21": dict(
        title="Gadget snapshots are read as stored, in either format",
        statement="For a binary Gadget snapshot of either byte order and any mixture of precisions, the reader offers, per "
                  "particle type, exactly the blocks the file has, with the stored values, shapes and precision, including "
                  "blocks the user declares; masses only for types without an entry in the mass table. Files whose record "
                  "markers do not fit, which are cut short, or which are in another format are refused. open() returns "
                  "HDF5 snapshots as HDF5 files.",
        over=["inputs", "configurations"],
        quant="every header and particle value, counts, precision, mass table, marker value and file length within bounds",
        why="The snapshot reader has no tests.",
        files=["python/virgo/formats/gadget_snapshot.py"],
        mech=[("GadgetBinarySnapshotFile", "python/virgo/formats/gadget_snapshot.py"),
              ("open", "python/virgo/formats/gadget_snapshot.py")]),
    "C23": dict(
        title="Sanity checks accept exactly the consistent catalogue files",
        statement="sanity_check() of the Gadget, MXXL and Rockstar catalogue and id files returns normally when lengths, "
                  "offsets, pointers, ids, masses and sizes are consistent and raises when any relation it checks is "
                  "broken, however large the corrupted values are. For snapshots of the Millennium it also verifies that "
                  "every particle is in the hash cell it is stored under.",
        over=["inputs"],
        quant="every value of the header, length, offset, pointer, id, mass and position fields within bounds",
        why="None of the methods has tests.",
        files=["python/virgo/formats/subfind_lgadget2.py", "python/virgo/formats/subfind_lgadget3.py",
               "python/virgo/formats/subfind_pgadget3.py", "python/virgo/formats/rockstar.py"],
        mech=[("SubTabFile.sanity_check", "python/virgo/formats/subfind_lgadget3.py"),
              ("SubTabFile.sanity_check", "python/virgo/formats/subfind_pgadget3.py"),
              ("SnapshotFile.sanity_check", "python/virgo/formats/subfind_lgadget2.py"),
              ("HalosFile.sanity_check", "python/virgo/formats/rockstar.py")]),
    "C24": dict(
        title="Hash table reads of Millennium snapshots return the requested cells",
        statement="Reading cells returns exactly the particles filed under these cells, each once, in file order, with "
                  "positions, velocities and ids of the same particle, however the cells are spread over files and "
                  "whatever was read before. Reading a region returns every particle in it, allowing for periodicity, "
                  "and only whole cells which touch it.",
        over=["inputs", "histories"],
        quant="every region, subset of cells, position, velocity, distribution over cells and files within bounds",
        why="The class has no tests.",
        files=["python/virgo/formats/subfind_lgadget2.py", "python/virgo/util/peano.py"],
        mech=[("Snapshot.read_region", "python/virgo/formats/subfind_lgadget2.py"),
              ("Snapshot.read_cells", "python/virgo/formats/subfind_lgadget2.py")]),
    "C25": dict(
        title="Group catalogues and group-ordered snapshots over several files",
        statement="Reading a P-Gadget3, Gadget-4, Millennium-2 or COCO group catalogue returns the concatenation of the blocks "
                  "of all its files. Reading a group or subgroup from a snapshot ordered by group returns exactly its "
                  "particles, of the requested types and quantities, in file order, wherever file boundaries fall and "
                  "whatever was read before. Files without groups or subgroups are valid.",
        over=["inputs", "histories"],
        quant="every catalogue value, group offset and length, split over files, type and pair of reads within bounds",
        why="These classes have no tests.",
        files=["python/virgo/formats/subfind_pgadget3.py", "python/virgo/formats/subfind_gadget4.py",
               "python/virgo/sims/millennium2.py", "python/virgo/sims/coco.py", "python/virgo/util/read_multi.py",
               "python/virgo/formats/gadget_snapshot.py"],
        mech=[("GroupCatalogue", "python/virgo/formats/subfind_pgadget3.py"),
              ("GroupOrderedSnapshot", "python/virgo/formats/subfind_pgadget3.py"),
              ("GroupCatalogue", "python/virgo/formats/subfind_gadget4.py"),
              ("GroupOrderedSnapshot", "python/virgo/formats/subfind_gadget4.py")]),
    "C26": dict(
        title="SWIFT and SOAP data come with the units recorded in the file",
        statement="Reading or slicing a dataset of a SWIFT snapshot or SOAP catalogue returns the stored values with units "
                  "which are worth what the conversion factor of the file says, have the dimensions and powers of the "
                  "scale factor and h given by its exponents, and follow the requested (soap or swiftsimio) kind of "
                  "units. Datasets without unit metadata are returned unchanged; wherever the metadata is in the file.",
        over=["inputs", "configurations"],
        quant="every exponent, unit, scale factor, h, conversion factor and data value within bounds",
        why="The module has no tests.",
        files=["python/virgo/formats/swift.py", "python/virgo/formats/soap.py"],
        mech=[("SwiftDataset", "python/virgo/formats/swift.py"),
              ("soap_units_from_attributes", "python/virgo/formats/swift.py"),
              ("SOAPCatalogue", "python/virgo/formats/soap.py")],
        note="unyt and swiftsimio are external libraries: they are modelled symbolically, and the real ones are used when "
             "counterexamples and sampled paths are replayed."),
    "C27": dict(
        title="Eagle file names refer to the one file asked for",
        statement="eagle_filename returns the path of the file of the requested directory, type, snapshot and number, with the "
                  "redshift label found on disk. If no file or several files match it raises IOError, and a later call "
                  "after files have appeared succeeds. Labels remembered from earlier calls are used only for files of "
                  "the same directory, type and snapshot.",
        over=["inputs", "histories"],
        quant="every subset of existing files and history of calls within bounds",
        why="The function has no tests.",
        files=["python/virgo/sims/eagle.py"],
        mech=[("eagle_filename", "python/virgo/sims/eagle.py")]),
    "C28": dict(
        title="A failure on any rank of a checked function ends the MPI job",
        statement="If a function decorated with mpi_errchk raises an exception or is interrupted on any rank, the error is "
                  "reported with its rank and MPI_Abort is called with a non-zero code, so that the other ranks do not "
                  "wait forever. Otherwise arguments and return value pass through unchanged.",
        over=["inputs", "fault_sequences"],
        quant="every subset of failing ranks, kind of exception and argument value within bounds",
        why="The decorator has no tests.",
        files=["python/virgo/mpi/errchk.py"],
        mech=[("mpi_errchk", "python/virgo/mpi/errchk.py")]),
    "C29": dict(
        title="hash_dirs_mpi hashes every selected file once, on any number of ranks",
        statement="For any directory tree and number of MPI ranks, and whatever the order in which ranks ask for work, "
                  "hash_dirs_mpi lists exactly the files which the include and exclude patterns select (other than its "
                  "own output files), sorted, each with the hash of its whole contents or UNREADABLE, having read each "
                  "file at most once, and always ends. The per-directory lists, extended attributes and data base "
                  "agree with this, and a resumed run uses the hashes which the data base has for the same base "
                  "directory and hash type and only adds the others.",
        over=["inputs", "schedules", "histories"],
        quant="every tree, file size, set of readable files, pattern list, earlier data base content and arrival order "
              "of requests within bounds",
        why="The script has no tests (it did not compile); which rank hashes what depends on timing.",
        files=[HASH],
        mech=[("recursive_hash, hash_dir, hash_file and DirectoryList", HASH)]),
    "C30": dict(
        title="The file presence checks report exactly the incomplete outputs",
        statement="For EAGLE and P-Gadget3 runs, the presence checks report every requested output as complete exactly "
                  "when the number of files its first file says are all there, and otherwise how many of how many are, "
                  "or that there are none if the first file or the directory is missing, unreadable or ambiguous. The "
                  "summary counts the incomplete directories of each kind.",
        over=["inputs", "configurations"],
        quant="every number of files, subset of missing files and damage to one set of files within bounds",
        why="The scripts have no tests (they did not compile).",
        files=[CE, CP],
        mech=[("check_dir, check_eagle_run, eagle_filename", CE), ("check_dir, check_pgadget3_run", CP)]),
    "C31": dict(
        title="The Fortran HDF5 wrapper reads and writes exactly the part asked for",
        statement="Reading a dataset, or the part given by start and count, into an array which can hold it puts each "
                  "element where its position says and leaves the rest of the array unchanged; writing puts the array's "
                  "elements at the given position of a dataset of the array's type, which is created, replaced or extended as asked and "
                  "otherwise unchanged, whatever the type, rank, compression or chunk size. A read or write which does not fit, is "
                  "of another type or lies outside a dataset stops the program without accessing memory beyond the array.",
        over=["inputs", "configurations"],
        quant="every type, rank, extent, start, count, initial size, compression level and element value within bounds",
        why="The wrapper's test programs write and read a few arrays without comparing the results.",
        files=[FW + x for x in ("read_dataset.inc", "write_dataset.inc", "hdf5_wrapper.F90")],
        mech=[("hdf5_read_data", FW + "read_dataset.inc"), ("hdf5_write_data", FW + "write_dataset.inc")],
        note="The Fortran source is preprocessed, parsed and executed symbolically; the HDF5 library is an external "
             "library and is modelled, and the real one is used (with gfortran) when counterexamples and sampled paths "
             "are replayed."),
    "C32": dict(
        title="Fortran HDF5 wrapper: attributes, groups, queries and listings",
        statement="Attributes of every supported type and rank read back as written, replace an existing one only if asked, "
                  "and dimension and type queries describe the dataset or attribute named. Creating a group makes exactly "
                  "the missing levels, and listings give each member of a group or attribute of an object once. Calls "
                  "which cannot be carried out (absent objects, invalid handles, read-only files) stop the program and change nothing.",
        over=["inputs", "configurations"],
        quant="every type, rank, value, extent and subset of objects present within bounds",
        why="The wrapper's test programs use a few attributes without comparing the results; listings are not tested.",
        files=[FW + x for x in ("read_attribute.inc", "write_attribute.inc", "hdf5_wrapper.F90")],
        mech=[("hdf5_read_attribute", FW + "read_attribute.inc"), ("hdf5_write_attribute", FW + "write_attribute.inc"),
              ("hdf5_create_group, hdf5_get_dimensions, hdf5_get_type, hdf5_list_*", FW + "hdf5_wrapper.F90")],
        note="The HDF5 library is modelled as for C31."),
    "C33": dict(
        title="Fortran HDF5 wrapper sessions act on the file each handle stands for",
        statement="In any sequence of opening, creating and closing files, reading, writing, extending and replacing "
                  "datasets and attributes, every read returns what was last written to the dataset of that file, every file "
                  "finally holds exactly what was written to it, and files opened read-only or not open are never changed. "
                  "An operation which is not possible stops the program, with everything written before it in the files.",
        over=["histories", "inputs"],
        quant="every sequence of operations and every value written within bounds",
        why="The wrapper keeps a dataset open between calls and reuses handles; its test programs use one file.",
        files=[FW + x for x in ("hdf5_wrapper.F90", "read_dataset.inc", "write_dataset.inc")],
        mech=[("hdf5_open_file, hdf5_create_file, hdf5_close_file", FW + "hdf5_wrapper.F90"),
              ("hdf5_read_data (dataset left open)", FW + "read_dataset.inc")],
        note="The HDF5 library is modelled as for C31."),
}
