A = "readers are all of rsciio/*/_api.py"
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    d = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech)
    if na:
        d["na"] = na
    else:
        d["technique"], d["note"] = technique, note
    PROPS.append(d)


ENG = ("Decides the property for every path of an over-approximating whole-program abstract execution of the public entry points; loops, "
       "recursion, aliasing, closures and callbacks are followed. Trusts the models of external libraries in sa/models.py. ")

P("C01", "Reading and writing never modify what the caller passed in",
  "Reading or writing leaves every object the caller passed in unchanged: the signal dictionary with its data array, axes, metadata and original "
  "metadata, and every list, dictionary or array given as an option. This holds whether the call returns or raises.",
  ["inputs", "configurations"], "every reader, writer and utility, every argument (including nested containers and array buffers), every path through the code",
  "Tests compare the written file, hardly ever the argument afterwards; an in-place update on one option or dtype branch shows only if a test runs that branch and looks at its own input.",
  ["rsciio/*/_api.py", "rsciio/_hierarchical.py", "rsciio/utils/"],
  [("deep copies before rewriting", "rsciio/_hierarchical.py HierarchicalWriter.write, file_writer of each plugin"), ("option dictionaries copied before being completed", "rsciio/image/_api.py file_writer")],
  "interprocedural alias and mutation (effect) analysis over a whole-program abstract interpretation", ENG + "A write through numpy views is tracked; mutation inside third-party code given an argument is covered only where the model says so.")
P("C02", "Every file a call opens is closed again, on success and on every error",
  "When a reader, writer or utility function returns or raises, every file, archive or HDF5/Zarr/image handle it opened is closed, whatever error occurs at "
  "whatever step in between. Only a handle that backs lazily loaded data of a successful lazy call may remain open.",
  ["fault_sequences", "inputs"], "every opening, every instruction after it that can raise, every entry point, lazy and not",
  "Tests exercise successful calls and a few refusals; a leak needs an error between opening and closing, at each of hundreds of places.",
  ["rsciio/*/_api.py", "rsciio/emd/", "rsciio/_hierarchical.py", "rsciio/utils/hdf5.py"],
  [("with statements and try/finally around handles", "file_reader/file_writer of each plugin"), ("lazy hspy handles closed before being overwritten", "rsciio/hspy/_api.py")],
  "typestate analysis of handles (open/closed on every normal and exceptional path), path-sensitive abstract interpretation", ENG + "Every call and most operations are assumed able to raise.")
P("C03", "File content is never executed as code",
  "Nothing stored in a file that is read is ever executed or resolved as code: no evaluation of text, no unrestricted unpickling, no unsafe YAML or XML loading, no shell command, no import "
  "chosen by the file. Pickled content is loaded only when the caller explicitly allows it, and then only names from a fixed list can be resolved.",
  ["inputs"], "every byte sequence a file can hold, every reader and option",
  "A test needs a hostile file for each sink; the existing tests only load well-formed files.",
  ["rsciio/*/_api.py", "rsciio/pantarhei/_restricted_unpickling.py" , "rsciio/_hierarchical.py"],
  [("restricted unpickler with an allow list", "rsciio/pantarhei/_restricted_unpickling.py"), ("allow_pickle off", "np.load call sites"), ("ast.literal_eval rather than eval", "readers parsing text")],
  "taint analysis from file content to code-executing sinks, and allow-list extraction from the unpickler's source", ENG + "The sink list is in sa/checks_flow.py.")
P("C04", "Reading never creates, changes or deletes a file",
  "Reading a file or listing its content never creates, truncates, modifies, renames or deletes any file. The only exception is an output the caller asks for by "
  "an explicit option.",
  ["inputs", "configurations"], "every reader and listing utility, every option at its default or not, every path",
  "Tests do not compare the directory before and after a read for each format and option.",
  ["rsciio/*/_api.py", "rsciio/utils/"], [("opening mode fixed to read", "every open call of the readers"), ("dump_xml option", "rsciio/tia/_api.py")],
  "effect analysis: modes of every opening and every file-writing call reachable from a reader", ENG)
P("C05", "A writer refuses unsupported input before it touches an existing file",
  "When a writer refuses a request because it does not support it (dimension, data type, shape, axis or option value), it does so before the file at the "
  "target path is created, truncated or modified. An existing file is thus left intact by a refused request.",
  ["inputs", "configurations", "crash_points"], "every writer, every deliberate refusal reachable in it, every combination of input and options that leads there",
  "Tests check that the error is raised, not that an existing file survives, and cover a few refusals.",
  ["rsciio/blockfile/_api.py", "rsciio/semper/_api.py", "rsciio/msa/_api.py", "rsciio/nexus/_api.py", "rsciio/hspy/_api.py", "rsciio/_hierarchical.py"],
  [("validation ahead of open", "file_writer of each plugin")],
  "path-sensitive ordering analysis: explicit raise reachable in a state where the target has been opened for writing", ENG + "Errors raised by libraries while data is being written are out of scope.")
P("C06", "Every registered format offers exactly what its specification announces",
  "Each entry of the plugin registry can be used as announced: its module exports file_reader, and file_writer exactly when it announces writing; the signatures follow the shared calling convention "
  "(filename first, then signal for writers; lazy and chunks with the documented defaults; every option has a default); extensions are well formed and the default extension is one of them; names are unique.",
  ["configurations"], "every registered format, every specification field, every parameter of every exported function",
  "Tests call formats one at a time with the arguments they happen to know; a caller goes through the registry and passes the common arguments to whichever format matches.",
  ["rsciio/*/specifications.yaml", "rsciio/*/__init__.py", "rsciio/*/_api.py", "rsciio/_io_plugins.py"], [("registry built from the yaml files", "rsciio/_io_plugins.py"), ("__all__ of each plugin", "rsciio/*/__init__.py")],
  "cross-check of the declarative plugin registry with the exported functions and their signatures", "Decides each condition exactly from the registry files and the syntax trees of the exported functions.")
P("C08", "Binary data is decoded and encoded in the byte order of the file",
  "Every multi-byte number read from or written to a binary file is decoded or encoded in the byte order the format fixes, the file states or the caller requests, never in the byte order of the machine, and a "
  "requested or stated order applies to every field and to data loaded lazily as well as eagerly.",
  ["inputs", "configurations"], "every raw decoding and encoding (struct, fromfile, frombuffer, memmap, tofile, tobytes) reachable from every reader and writer; both byte orders where one can be requested",
  "Tests run on little-endian machines, where a missing byte order mark changes nothing, and nearly all sample files are little-endian.",
  ["rsciio/*/_api.py", "rsciio/utils/_distributed.py"], [("explicit < and > in struct formats and dtypes", "readers and writers"), ("endianess option", "rsciio/blockfile/_api.py, rsciio/edax/_api.py, rsciio/mrc/_api.py")],
  "abstract interpretation of struct formats and dtypes at every raw decoding, with a requested byte order held fixed", ENG + "Decodings whose format or dtype comes wholly from the file are counted but not judged.")
P("C10", "Data read lazily can still be loaded after the reader has returned",
  "When a lazy read returns an array that reads from an open file (HDF5, zarr zip store), that file is still open on every path that returns it: the reader never closes the file its own result depends on.",
  ["histories", "inputs"], "every reader that supports lazy loading, every path to a return, every file handle that backs a returned array",
  "A test that loads the data at once, from a file still held open elsewhere or small enough to be cached, does not notice; each path (fallbacks, several datasets, old versions) has its own closing code.",
  ["rsciio/hspy/_api.py", "rsciio/zspy/_api.py", "rsciio/emd/_api.py", "rsciio/nexus/_api.py", "rsciio/usid/_api.py", "rsciio/tofwerk/_api.py"],
  [("close unless lazy", "file_reader of the HDF5 and zarr formats")],
  "typestate of backing files against the handle provenance of returned lazy arrays, on every return path",
  ENG + "Covers arrays built from an HDF5 or zarr dataset of a tracked handle; deferred functions that open the file by name themselves need none.")
P("C11", "Reading any file, damaged ones included, comes to an end",
  "Reading never hangs: for every file content, including truncated, empty, cyclic and otherwise damaged files, every loop of a reader or exported function ends. On each way round, a loop advances a position "
  "towards its bound by a positive amount, empties a container, or reads from the file and leaves at its end.",
  ["inputs"], "every while loop (and endless iterator) of every function reached from a reader, every path round it, every file content",
  "Tests read intact files; a hang needs a file that ends, repeats or has a zero size at one particular place.",
  ["rsciio/*/_api.py", "rsciio/_hierarchical.py"],
  [("exits at the end of the file", "rsciio/dens/_api.py, rsciio/phenom/_api.py _read"), ("block sizes checked before they are skipped", "rsciio/renishaw/_api.py locate_all_blocks"),
   ("cyclic folder tables rejected", "rsciio/bruker/_api.py _flat_items_to_dict")],
  "termination analysis: ranking arguments (counters, consumed containers, file position) on every path through every loop reached",
  "Each while loop of each function reached is decided; recursion is bounded by the interpreter and loops inside libraries are out of scope. A file that is merely huge, so that a finite loop takes long, is not a violation.")
P("C12", "Interrupting a call is never swallowed",
  "KeyboardInterrupt and SystemExit raised during a read or write reach the caller unchanged: no handler, suppress() or context manager of the package catches them (by name, as BaseException or with a bare except) "
  "without raising them again, and no return, break, continue or raise in a finally block discards them or any other error under way.",
  ["schedules", "fault_sequences"], "every exception handler, finally block and context manager exit of the package, every instant at which an interrupt can arrive",
  "An interrupt can arrive between any two instructions; tests never send one.",
  ["rsciio/"], [("except Exception rather than bare except", "handlers in readers")],
  "exhaustive exception-handler analysis over the syntax trees (caught types resolved through module-level tuples)", "Exact for handlers in the package; handlers inside libraries are out of scope.")
P("C19", "A format needs only the optional dependencies documented for it",
  "Importing the package or the registry needs only the mandatory dependencies; importing and using one format needs at most the optional packages documented for that format. A missing optional package "
  "shows as an error naming it when the feature that needs it is used, and never affects other formats.",
  ["configurations"], "every subset of the optional dependencies, every module and every function reached from a reader or writer",
  "The test environment has every optional package installed, or skips whole modules.",
  ["rsciio/*/_api.py", "rsciio/utils/", "rsciio/_hierarchical.py", "pyproject.toml"], [("guarded imports with an explanation", "users of optional packages"), ("imports inside functions", "readers")],
  "transitive import-graph analysis plus whole-program reachability of imports inside functions", "Documented dependencies per format are listed in sa/checks_ast.py (from pyproject.toml and the documentation).")
P("C07", "lazy=True gives lazy data or is refused",
  "Asking any reader for lazy loading either returns datasets whose data is a lazy (dask) array or raises; it never silently loads everything into memory. "
  "Without lazy loading the data returned is an in-memory array.",
  ["inputs", "configurations"], "every reader and every path to a return",
  "Tests try lazy loading on one or two sample files per format, so one file version, compression or dimension branch can ignore it unnoticed.",
  ["rsciio/*/_api.py", "rsciio/utils/_distributed.py"], [("memmap_distributed and dask from_array branches", "file_reader of each plugin"), ("NotImplementedError for formats without lazy support", "file_reader of dens, digitalsurf, ...")],
  "abstract interpretation with lazy fixed to each value; kind (dask, numpy) of every value reachable as data at return", ENG + "One-dimensional or scalar side products read eagerly by design are listed in the check.")
P("C13", "No call leaves state behind that changes a later call",
  "A call to a reader, writer or utility leaves no trace in the package that could change the result of a later call: no module-level table, class attribute, function default or cached mapping "
  "is modified, and none is handed out to the caller to modify.",
  ["histories"], "every sequence of calls in one process, in any order, and mutations of returned objects between them",
  "Tests run each call once in a fresh fixture; the effect needs two calls, or a caller editing a result before the second call.",
  ["rsciio/*/_api.py", "rsciio/_hierarchical.py", "rsciio/utils/"], [("module-level mapping tables copied or rebuilt per call", "msa, tia, tiff, blockfile, mrc _api.py")],
  "escape and effect analysis of module-level, class-level and default-argument objects", ENG + "The registry of open lazy hspy files and a warn-once flag are the listed exceptions.")
P("C14", "Reading the same file gives the same result anywhere and any time",
  "The result of reading or listing a file is determined by the file and the options alone. It does not depend on the current date or time, the locale's text encoding, directory "
  "listing order, set ordering, random numbers, environment variables or object identity; the load time stamp kept in the operation history and conversion to the local time zone are the exceptions. Text files are written, too, in a stated encoding and never in the locale's.",
  ["configurations", "schedules"], "every machine, locale, hash seed, directory order and date",
  "Tests run on one machine with one locale on one day.",
  ["rsciio/*/_api.py", "rsciio/nexus/_api.py", "rsciio/utils/hdf5.py"], [("sorted glob results", "rsciio/tia/_api.py, rsciio/jeol/_api.py"), ("explicit text encoding", "every text-mode open")],
  "information-flow (taint) analysis from clock, environment, random, directory-order and set-order sources to returned values", ENG)
P("C18", "Refusals of bad input do not vanish under python -O",
  "Every check that refuses invalid input or a corrupted file still refuses it when python runs with optimisation. No behaviour depends on the optimisation level.",
  ["configurations", "inputs"], "every entry point, every validation reachable from it",
  "The test suite never runs with -O (its own asserts would vanish).",
  ["rsciio/*/_api.py", "rsciio/_hierarchical.py"], [("explicit raise for every refusal", "readers and writers")],
  "reachability of assert statements and of __debug__ from every entry point", ENG + "An assert that only repeats a condition already established on its path is exempt.")
P("C20", "No call changes process-wide settings",
  "Reading or writing never changes settings of the process or of other libraries: warning filters, numpy error state, locale, working directory, environment, log configuration, import "
  "path, random seeds, recursion limit. Where a setting must be changed temporarily, it is restored on every exit, errors included.",
  ["histories", "fault_sequences"], "every call of every entry point and every exit from it",
  "The effect is visible only in unrelated code run afterwards in the same process.",
  ["rsciio/*/_api.py", "rsciio/utils/"], [("warnings.catch_warnings and numpy.errstate blocks", "users of warnings filters")],
  "effect analysis of calls and stores to process-wide settings reachable from every entry point and at import", ENG)
P("C24", "Readers return the documented structure",
  "Every reader returns a list of dictionaries, each with data, axes, metadata and original metadata; every axis description has a name, units and either size, scale and offset, a full axis "
  "vector or an expression of another axis. Only an axis that the file itself leaves unlabelled may lack a name.",
  ["inputs"], "every reader, every path to a return, every dictionary built on it",
  "Which keys exist depends on the branch taken by the file's version and dimension; tests sample few of them and hyperspy fills gaps silently.",
  ["rsciio/*/_api.py", "doc/api/index.rst"], [("axis and dataset dictionary literals", "readers")],
  "shape analysis of the returned abstract heap (list, dataset keys, axis keys)", ENG + "Dictionaries whose content comes wholly from the file (hspy, zspy, nexus axes) are not judged key by key.")

P("C23", "File names are accepted as text and as pathlib.Path alike",
  "Every reader and writer, and every public helper with a parameter called filename, does the same whether the file name is given as text or as pathlib.Path: no operation along any path applies "
  "to the name something that only one of the two supports, none of them refuses one type and accepts the other, and the dictionaries a reader returns hold the name as text, never as a Path.",
  ["inputs"], "every reader, writer and public helper that takes a file name, every option, every path from the file name to an operation",
  "The documentation promises both types; the tests pass text to most plugins and only to the branch the sample file takes.",
  ["rsciio/_docstrings.py", "rsciio/*/_api.py"], [("file name parameter", "FILENAME_DOC"), ("operations on the file name", "readers and writers")],
  "type-directed abstract interpretation (the file name as pathlib.Path and as text; every operation on it checked against the type's interface)",
  ENG + "What third-party libraries accept is taken from a list: string-only modules (re, glob, ...) refuse a Path, opening functions take both.")

NA = "Static analysis cannot decide this: "
P("N01", "Writing then reading a signal gives the same data back",
  "For every format with a writer, reading back what was written returns equal data, axes calibration and supported metadata.",
  ["inputs"], "every signal a format supports", "Round-trip tests sample a few shapes and dtypes.", ["rsciio/*/_api.py"], [("paired reader and writer", "each plugin with writes")],
  na=NA + "equality of array contents and floating-point calibrations after a byte-level round trip is a runtime quantity; no structural condition is both necessary and strong enough to stand for it.")
P("N02", "Lazy and eager loading return the same data",
  "Computing a lazily loaded dataset gives exactly the data that eager loading returns.",
  ["inputs", "schedules"], "every file and chunking", "Tests compare on sample files.", ["rsciio/*/_api.py"], [("shared chunk functions", "rsciio/utils/_distributed.py")],
  na=NA + "it is equality of numerical results of two code paths over all files.")
P("N03", "Axis sizes match the data shape",
  "In every returned dataset the number of axes and their sizes equal the dimensions and shape of the data.",
  ["inputs"], "every file", "Tests check sample files.", ["rsciio/*/_api.py"], [("size taken from the data shape", "readers")],
  na=NA + "shapes are computed from header fields at run time; a symbolic shape analysis through reshape, transpose, squeeze and third-party readers is out of reach.")
P("N04", "Damaged files raise an error instead of returning wrong data",
  "A truncated or damaged file raises an error; it never yields silently wrong data, a crash or unbounded memory use.",
  ["inputs", "fault_sequences"], "every byte sequence", "Tests have a handful of damaged files.", ["rsciio/*/_api.py"], [("magic number and length checks", "readers")],
  na=NA + "whether decoded values are right depends on file bytes; no static rule bounds it. The termination of read loops is claimed separately where decidable.")
P("N05", "The compiled stream decoders never access memory out of bounds",
  "The compiled Bruker decoder stays within its buffers for every input.",
  ["inputs"], "every byte stream", "Tests decode valid maps only.", ["rsciio/bruker/unbcf_fast.pyx"], [("typed memoryviews", "unbcf_fast.pyx")],
  na=NA + "offsets are read from the file and added to a cursor; the code has no checks an interval analysis could use, bounds hold only for well-formed streams, which are runtime data.")
P("N06", "Metadata values are mapped with the right units and scale",
  "Values copied from vendor metadata keep their physical meaning: units, prefixes and factors are right.",
  ["inputs"], "every vendor field", "Tests compare sample files.", ["rsciio/*/_api.py"], [("mapping tables", "readers")],
  na=NA + "the oracle is vendor knowledge outside the source; a table of expected factors would merely freeze the present text.")
P("N07", "A write interrupted by a crash leaves the previous file intact",
  "If the process dies while a file is being written, the previous content of that file can still be read.",
  ["crash_points"], "every instant during a write", "No test kills a writer.", ["rsciio/*/_api.py"], [("none", "writers open the target in place")],
  na="Writers open the target file in place by design, so the code base does not offer this guarantee; only the part about refused requests is claimed (C05).")
P("N08", "Concurrent reads of the same file are independent",
  "Any number of threads can read files at the same time with the results of sequential reads.",
  ["schedules"], "every interleaving", "Tests are single-threaded.", ["rsciio/*/_api.py"], [("no shared state", "readers")],
  na=NA + "interleavings inside h5py, tifffile and dask dominate; the part about shared package state is decided by C13.")
P("N09", "Lazy loading needs only memory for the chunks being computed",
  "Peak memory of lazy loading is bounded by the chunks computed at a time.",
  ["inputs"], "every file", "Tests use tiny files.", ["rsciio/*/_api.py"], [("chunked dask arrays", "readers")],
  na=NA + "memory use is a runtime quantity; that data stays lazy at return is decided by C07.")

FIXED = {
 "fix: accept pathlib.Path in the tvips reader": "C23",
 "fix: accept pathlib.Path in the ripple reader": "C23",
 "fix: accept pathlib.Path in the mrc reader": "C23",
 "fix: accept pathlib.Path in the usid reader": "C23",
 "fix: accept pathlib.Path in the quantumdetector reader": "C23",
 "fix: load velox EELS spectrum images lazily when asked to": "C07",
 "fix: raise an error for cyclic folders in bcf files": "C11",
 "fix: raise an error for truncated ELID files": "C11",
 "fix: stop at wdf blocks that are smaller than their header": "C11",
 "fix: reject empty impulse heater logs instead of reading them forever": "C11",
 "fix: reorder prz metadata after validating it": "N01",
 "fix: describe uncalibrated prz axes completely": "C24",
 "fix: read the tvips acquisition time as UTC": "N06",
 "fix: match mrc virtual image names to the images": "C14",
 "fix: reject invalid navigator and scaling before blockfile truncates the file": "C05",
 "fix: do not convert units in the caller's axes when writing blockfile": "C01",
 "fix: write and read every blockfile header field with the requested endianness": "C08",
 "fix: close the blockfile when reading it fails": "C02",
 "fix: close the file reopened by the DigitalMicrograph reader when reading fails": "C02",
 "fix: close EMD files when reading lazily or writing fails": "C02",
 "fix: close hspy files whenever reading or writing fails": "C02",
 "fix: close NeXus files after reading them into memory and when reading fails": "C02",
 "fix: close the image file after reading its tags": "C02",
 "fix: do not modify the caller's imshow_kwds and scalebar_kwds": "C01",
 "fix: lazy loading of images": "C07",
 "fix: compare all the channels before reducing a colour image to grayscale": "N04",
 "fix: do not modify the caller's frame_shifts and frame_start_index": "C01",
 "fix: close the JEOL eds file after reading it": "C02",
 "fix: close the mrc file after reading its header": "C02",
 "fix: close the netCDF file when reading it fails": "C02",
 "fix: remove the evaluation of the history text of netCDF files": "C03",
 "fix: return a list from the netCDF reader as documented": "C24",
 "fix: close prz files when reading them fails": "C02",
 "fix: close the USID file when reading it fails": "C02",
 "fix: close HDF5 files when listing their content fails": "C02",
 "fix: validate semper files also when python runs with -O": "C18",
 "fix: create the semper label before truncating the file": "C05",
 "fix: close the semper file reopened for lazy data": "C02",
 "fix: read and write semper data as little-endian whatever the host and array byte order": "C08",
 "fix: write the units of each axis in semper files": "N01",
 "fix: validate prz metadata also when python runs with -O": "C18",
 "fix: close TIFF files when reading them fails": "C02",
 "fix: close Tofwerk files when reading them fails": "C02",
 "fix: close zspy zip stores when reading or writing fails": "C02",
 "fix: close the lazily read hspy file when it can not be tracked": "C02",
 "fix: do not modify the caller's original_metadata when writing msa": "C01",
 "fix: writing a SEM spectrum to msa changed the mapping of all later files": "C13",
 "fix: reject an unknown msa format before truncating the file": "C05",
 "fix: reject unsupported NeXus axes before truncating the file": "C05",
 "fix: reject ragged dask arrays before truncating the hspy or NeXus file": "C05",
 "fix: do not modify the caller's rpl_info": "C01",
 "fix: return a copy of the module-level metadata mapping": "C13",
 "fix: keep the units of non-linear NeXus axes": "C24",
 "fix: give the units of the stack axis of Velox spectra": "C24",
 "fix: give the offset of the axes of DE mrc files": "C24",
 "fix: reject lazy loading where hamamatsu and topspin do not support it": "C07",
 "fix: read text files as UTF-8 whatever the locale": "C14",
 "fix: return the selected NeXus datasets in the order of the file": "C14",
 "fix: read EDAX maps with the requested endianness also when not lazy": "C08",
 "fix: read mrc data with the requested endianness": "C08",
 "fix: read bruker data as little-endian on every platform": "C08",
 "fix: read digitalsurf points as little-endian on every platform": "C08",
 "fix: read and write tvips files as little-endian on every platform and for any array": "C08",
 "fix: read jeol data as little-endian on every platform": "C08",
 "fix: read the scaling of hamamatsu tiff files as little-endian on every platform": "C08",
 "fix: record the byte order of multi-byte data in rpl files": "C08",
 "fix: read rpl data without byte order as little-endian on every platform": "C08",
 "fix: read big-endian DigitalMicrograph data": "C08",
 "fix: do not require h5py for zspy files": "C19",
 "fix: do not swallow KeyboardInterrupt": "C12",
}
