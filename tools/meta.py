"""
Writes properties.jsonl and MANIFEST.json from the one list below (kept together so that they cannot drift apart).
    /opt/venv/bin/python tools/meta.py
"""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'deterministic simulation with fault injection: '

BATCH = 'surfalize/batch.py'
SURF = 'surfalize/surface.py'
PROF = 'surfalize/profile.py'
BASE = 'surfalize/base.py'
CACHE = 'surfalize/cache.py'
COMMON = 'surfalize/file/common.py'
READERS = ['surfalize/file/' + f for f in
           ('al3d.py', 'dat.py', 'fits.py', 'gwy.py', 'nms.py', 'opd.py', 'os3d.py', 'plu.py', 'plux.py', 'sdf.py',
            'sflz.py', 'sur.py', 'tmd.py', 'vk.py', 'x3p.py', 'xyz.py', 'zmg.py')]
WRITERS = ['surfalize/file/sur.py', 'surfalize/file/sdf.py', 'surfalize/file/sflz.py', 'surfalize/file/al3d.py',
           'surfalize/file/tmd.py']

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, tech=None, note=None, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, tech=tech, note=note, na=na, state=state))


# ---------------------------------------------------------------------------------------------------------------- batch
prop('B01', 'A batch gives every file the values it has on its own',
     'The result of executing a batch has exactly one row per input file, and every value in it equals what loading that '
     'file alone and applying the same operations and parameters to it directly gives, in the order in which they were '
     'chained (or with all operations before all parameters, if that mode is chosen). This holds sequentially and in '
     'parallel, for any number of workers and any interleaving of them, for paths and file-like inputs, and for '
     'operations, parameters and functions supplied by the user alike. Additional data and values extracted from file '
     'names end up in the row of the file they belong to. The files may be given in any list-like or iterable, one by one, '
     'or as a directory, in which the case of the suffixes does not matter.',
     ['schedules', 'inputs', 'programs', 'configurations'],
     'every set of files, chain of operations and parameters with arguments, worker count, execution mode and thread '
     'interleaving',
     'The tests execute one batch on three files on whatever schedule the machine produces and compare a few columns; '
     'a row mix-up that needs a particular interleaving, worker count or chain order is never tried.',
     [BATCH, SURF, CACHE], [{'name': 'one task per file builds one row dictionary', 'where': 'batch.py _task'},
                            {'name': 'pool and unordered result collection', 'where': 'batch.py Batch._disptach_tasks'},
                            {'name': 'row assembly and merge', 'where': 'batch.py Batch._construct_dataframe'}],
     ['Batch.execute() result'],
     'seeded thread schedules over real batch runs against a per-file reference',
     'Random schedules, worker counts and programs; the reference calls the same single-surface methods, so an error in '
     'one calculation itself is out of scope. Assumes numpy/scipy code is not preempted.')
prop('B02', 'Completion callbacks: once per file, serial, on the calling thread',
     'During one execution of a batch the completion callback is called exactly once for every processed file, on the '
     'thread that called execute, never twice at the same time and never after execute has returned. The values it is '
     'given are those of the row of that file. An exception raised by the callback reaches the caller of execute and no '
     'further callback is made.',
     ['schedules', 'inputs', 'configurations', 'fault_sequences'],
     'every thread interleaving, worker count, set of files and position at which the callback raises',
     'Tests cannot steer worker completion order, so duplicates, concurrent or late callbacks only show on schedules they '
     'never produce.',
     [BATCH], [{'name': 'callback invoked by the collecting thread', 'where': 'batch.py Batch._disptach_tasks'}],
     ['on_file_complete calls, their thread and arguments'],
     'seeded thread schedules with a recorded callback history',
     'Random schedules and raising callbacks; history check of every call, including a drain of the workers after return.')
prop('B03', 'A failed calculation costs its own cell and nothing else',
     'When calculation errors are ignored (the default), a parameter or user function that reports that it has no result '
     'for a surface leaves only its own columns empty (NaN) in the row of that file, and every other value of every file '
     'is as if it had not failed. When they are not ignored, the calculation error reaches the caller of execute instead '
     'of a result.',
     ['schedules', 'inputs', 'fault_sequences', 'configurations'],
     'every subset of (file, parameter) pairs that fail, every interleaving, sequential and parallel',
     'The tests hold one failing case; which cells of which rows are affected under combinations of several failures, '
     'multi-valued parameters, user functions and interleavings is not sampled.',
     [BATCH, 'surfalize/exceptions.py'], [{'name': 'error handling per parameter', 'where': 'batch.py _Parameter.calculate_from, '
                                                                                            '_CustomParameter.calculate_from'}],
     ['Batch.execute() result or exception'],
     'injected calculation failures under seeded schedules against a per-file reference',
     'Failures injected as a function of surface content (fits, parameter methods, user functions).')
prop('B04', 'A failing file ends the batch with its own error, cleanly',
     'If a file cannot be opened, read or decoded, a user supplied function raises an error of its own (of any kind), or '
     'the user interrupts the execution, execute raises the error of one of the failing files (the first one when running '
     'sequentially) or the interrupt instead of returning a result or waiting forever. Afterwards all worker threads come to an end, no callback is made any more, and the callbacks made '
     'before were right. Once the cause is gone, executing the same batch again, even at once, gives the complete correct '
     'result.',
     ['schedules', 'fault_sequences', 'inputs', 'histories'],
     'every placement of missing, corrupt or failing files among good ones, every interleaving and worker count',
     'Tests never run a batch with a failing file on controlled schedules; hangs, lost errors and leftover threads depend '
     'on where in the interleaving the failure happens.',
     [BATCH, COMMON], [{'name': 'propagation through the pool', 'where': 'batch.py Batch._disptach_tasks'}],
     ['exception of Batch.execute()', 'callback history', 'live threads', 'result of the next execute()'],
     'open/read/decode/user-code faults under seeded schedules, with heal and re-execution',
     'Faults: missing, truncated, garbage files, failing open and read, raising user operations/parameters; progress is '
     'bounded in scheduling steps and simulated time.')
prop('B05', 'Executions of batches do not influence each other or their inputs',
     'Executing a batch repeatedly, executing one batch from several threads at once, and executing several batches that '
     'share files, parameter definitions or user functions at once, each with its own options, all give the same results as '
     'executing each alone, from the contents the files then have. '
     'Execution changes neither the input files nor the chained steps, and leaves file-like inputs open and at the '
     'position at which they were given, so that a batch can be extended and executed again.',
     ['schedules', 'histories', 'configurations'],
     'every interleaving of up to three concurrent executions with repetitions, shared and separate batch objects',
     'No test executes two batches at once or a batch twice; state shared between executions only shows in particular '
     'interleavings.',
     [BATCH, COMMON], [{'name': 'steps are not modified by execution', 'where': 'batch.py _task, _Operation, _Parameter'},
                       {'name': 'stream position restored', 'where': 'file/common.py open_file_like'}],
     ['results of all executions', 'position and state of streams', 'bytes of input files'],
     'several concurrent simulated executions compared with a per-file reference',
     'Up to three user threads with their own worker pools in one simulated process.')
prop('B06', 'Loading and processing leave the settings of the process alone',
     'Loading files (including files that are corrupt, carry a wrong suffix, or are recognised only by trying), computing '
     'parameters and executing batches leave the process-wide settings of the interpreter as they were: the warning '
     'filters, the floating point error handling, the random number generators, the working directory and the number of '
     'open files. This holds when several of these run at once in different threads and when they fail.',
     ['schedules', 'inputs', 'fault_sequences'],
     'every interleaving of concurrent loads, calculations and batch executions, on good and bad inputs',
     'Saving and restoring a process-wide setting is only wrong when two threads overlap in a particular order; tests run '
     'one thread.',
     [COMMON, BATCH, SURF], [{'name': 'warnings suppressed under a lock while probing readers',
                              'where': 'file/common.py _suppress_warnings'}],
     ['warnings.filters, numpy error state and random state, cwd and open descriptors before and after'],
     'seeded thread schedules over concurrent loads and calculations; process settings compared before and after',
     'Settings compared after all threads ended; probing readers, failing loads and batches in up to three threads.')
prop('B07', 'A result saved by a batch is complete or the failure is reported',
     'When executing a batch with an output file returns, the written spreadsheet can be read back and holds every row and '
     'column of the returned result. If the output cannot be written completely, execute raises; no schedule, worker count '
     'or write fault leaves an incomplete output file behind a successful return.',
     ['fault_sequences', 'inputs', 'schedules'],
     'every batch and every position at which writing the output fails',
     'The tests do not inject write errors.',
     [BATCH], [{'name': 'export after assembly', 'where': 'batch.py Batch.execute'}],
     ['the output file, the returned result or exception'],
     'full-disk and I/O errors at seeded byte positions of the export, output read back',
     'Write faults at a byte count, close errors and a file size limit; reading back uses openpyxl directly.')

# ---------------------------------------------------------------------------------------------------------------- state
prop('C01', 'Parameters always describe the current heights',
     'Every parameter read from a surface or profile equals the parameter of a newly created object with the current '
     'heights and spacing, whatever was read, assigned, edited through indexing, operated on in place or failed before. '
     'This also holds when other threads read parameters of the same object while it is being edited (for every read that '
     'does not overlap the edit), and when earlier calculations failed for lack of memory. Changing a returned result does '
     'not change later ones.',
     ['schedules', 'histories', 'inputs', 'fault_sequences'],
     'every history of reads and edits by one editing thread and any number of reading threads per object, with failing '
     'allocations',
     'Tests check single reads after single edits; a stale value needs a particular combination of parameter, argument '
     'form, edit and interleaving.',
     [CACHE, BASE, SURF, PROF, 'surfalize/abbottfirestone.py', 'surfalize/autocorrelation.py', 'surfalize/fourier.py'],
     [{'name': 'result cache', 'where': 'cache.py cache, CachedInstance'},
      {'name': 'cache cleared by every change', 'where': 'base.py / surface.py / profile.py data setter, __setitem__'}],
     ['values returned by parameter methods'],
     'seeded histories and thread schedules over live objects against fresh objects',
     'Up to three threads and three objects, histories up to 16 actions per thread; item assignment, data assignment and '
     'every in-place operation as edits; failing allocations during reads.',
     state=[{'name': 'cache entries per object', 'meaning': 'values computed for the current heights', 'where': 'cache.py'}])
prop('C02', 'Derived objects are independent of their source and of each other',
     'An operation without in-place mode returns a new object whose heights, spacing and extent share nothing '
     'with its source: no later change to one is visible in the other, in any order and from any thread, and the operation '
     'itself leaves its source as it was. The same operation in place gives the same heights, spacing and extent and '
     'returns the object itself. This covers operations on surfaces and profiles, extracted profiles, slices, trends and '
     'arithmetic between surfaces.',
     ['histories', 'schedules', 'inputs', 'programs'],
     'every history of derivations and edits over a population of objects, including several threads deriving from one '
     'source',
     'Tests compare results of single operations; shared memory is only visible when one of the objects is edited later.',
     [SURF, PROF, BASE, 'surfalize/filter.py'], [{'name': 'copies made by operations', 'where': 'surface.py / profile.py / base.py '
                                                                                                'operations'}],
     ['heights, spacing and extents of all objects after every action'],
     'seeded histories over a population of objects, all compared after every action',
     'Up to two threads deriving from shared sources, each editing its own results.')
prop('C03', 'A change that fails leaves the object as it was',
     'If an in-place operation or an assignment to a surface or profile raises, because its arguments are refused or '
     'because memory runs out at any point of it, the heights, spacing and extent are those from before the '
     'attempt and all parameters still belong to them. Once the cause is gone, the same operation does what it does on an '
     'object that never failed.',
     ['fault_sequences', 'inputs', 'histories'],
     'every allocation of every in-place operation failing, and refused arguments, in random histories',
     'Tests do not make allocations fail and look only at the exception.',
     [SURF, PROF, BASE, CACHE, 'surfalize/filter.py'], [{'name': 'results are computed before they are assigned',
                                                         'where': 'surface.py / profile.py / base.py in-place operations'}],
     ['heights, spacing, layers and parameters after the failed attempt'],
     'allocation failures at seeded points inside in-place operations',
     'The n-th numpy data allocation inside the operation fails (once or for good) through a replaced allocator.')

# ---------------------------------------------------------------------------------------------------------------- files
prop('S01', 'A save that reports success can be loaded again in full',
     'When saving a surface returns without an error (and, for a stream buffered by the caller, the caller flushed it '
     'successfully), loading what was written gives the same heights, non-measured points, spacing and requested image '
     'layers, within the precision of the format. This holds for every writable format and its options, for paths in any '
     'letter case and for streams written at any position, over existing files, and whatever the storage did: a full disk, '
     'I/O errors, short writes, errors on close or failing allocations lead to an exception or to a complete file. After '
     'the fault is gone the same surface can be saved and loaded.',
     ['fault_sequences', 'crash_points', 'inputs', 'configurations'],
     'every surface, format, option and target, and every byte or call at which writing fails',
     'The tests write a handful of surfaces to a working disk.',
     [COMMON] + WRITERS, [{'name': 'writers', 'where': 'file/sur.py, sdf.py, sflz.py, al3d.py, tmd.py'},
                          {'name': 'opening, closing, raw streams', 'where': 'file/common.py open_file_like, write_array'}],
     ['exception of Surface.save', 'Surface.load of the written bytes'],
     'disk faults at seeded bytes and calls under the real writers; read back and compared',
     'Faults below the real buffered file objects (full disk, EIO, short writes, failing close), a real file size limit '
     'and failing allocations.')
prop('S03', 'A torn file is never taken for a complete one',
     'If a measurement file is cut off at any byte inside its height data, as a crash or a full disk while it was written '
     'or copied leaves it, loading it raises an error; it never returns a surface with heights, non-measured points or '
     'spacing other than those of the complete file. This also holds when the cut off file is recognised by trying all '
     'formats.',
     ['crash_points', 'inputs'],
     'every format with a binary or structured layout, and every length the file can be cut to',
     'The tests load complete files only.',
     [COMMON] + READERS, [{'name': 'readers fail on missing data', 'where': 'file/*.py'},
                          {'name': 'format detection after a failed read', 'where': 'file/common.py FileHandler.read'}],
     ['Surface.load of every prefix'],
     'crash after a seeded number of durable bytes; the real loader on what survived',
     'All readable formats except xyz point lists (a shorter list of points is a valid file); a fits file cut exactly '
     'before its trailing mask extension is also a valid file and excluded.')
prop('S04', 'Loading damaged data ends',
     'Loading a damaged file (bytes changed, blocks lost, duplicated, zeroed or swapped, the file cut off or extended) '
     'either returns or raises an ordinary exception after a bounded amount of work; it does not loop forever, exhaust the '
     'memory of the process or end it. The same holds for reading from a stream of such data.',
     ['inputs', 'fault_sequences'],
     'every corruption of every readable format',
     'The tests load intact files only.',
     [COMMON] + READERS, [{'name': 'readers', 'where': 'file/*.py'}],
     ['outcome, executed steps and allocation sizes of Surface.load'],
     'seeded storage corruption under the real readers with bounded steps and capped allocations',
     'Steps are bounded as executed source lines; allocations above a cap fail as on a machine without the memory.')
prop('S05', 'Streams are left open and where they were',
     'Loading from or saving to a file-like object leaves it open and at the position at which it was given, whether the '
     'operation succeeds, the data are damaged, or reading or writing fails at any byte. A caller can therefore load the '
     'same stream again and gets the same surface. In every format the file is taken to begin at that position, also when '
     'other bytes precede it in the stream.',
     ['fault_sequences', 'inputs', 'crash_points'],
     'every format, stream class and failing call',
     'The tests load from streams that do not fail.',
     [COMMON], [{'name': 'position restored', 'where': 'file/common.py open_file_like'}],
     ['tell() and closed of the stream after load and save'],
     'I/O faults at seeded calls of in-memory, buffered and raw streams',
     'Where the stream itself refuses to seek the position is not checked.')
prop('S06', 'A file gives the recorded heights, spacing and layers by every route',
     'A valid file of any supported format gives the recorded heights (with non-measured points), lateral spacing and '
     'image layers, and the same ones whether it is loaded by path, from an in-memory, buffered or unbuffered stream, '
     'repeatedly, or by several threads at once. Files of a format that is recognisable by its first bytes are also loaded '
     'from a stream without naming the format and from a path with a wrong or missing suffix.',
     ['inputs', 'configurations', 'schedules'],
     'every supported format with random contents, every way of handing it to the loader',
     'The tests load one sample per vendor format by path and compare with stored values of that sample.',
     [COMMON] + READERS, [{'name': 'format dispatch', 'where': 'file/common.py FileHandler.read'}],
     ['Surface.load result'],
     'independent encoders for 28 format variants; real readers through simulated streams, concurrently in seeded schedules',
     'The encoders were written from the format layouts independently of the readers.')
prop('S07', 'A read error never turns into wrong heights',
     'If the storage fails while a file is being loaded (an I/O error at some byte, once or for good, a read that '
     'returns fewer bytes than were asked for, or an allocation that fails), loading raises or returns exactly the '
     'recorded heights and spacing. '
     'After the fault is gone, loading the same source gives the recorded surface.',
     ['fault_sequences', 'inputs'],
     'every format and every read call or byte position at which the fault happens',
     'The tests read from a disk that works.',
     [COMMON] + READERS, [{'name': 'errors of a reader are kept while other readers are tried',
                           'where': 'file/common.py FileHandler.read'}],
     ['Surface.load result or exception'],
     'read faults at seeded positions below the real loader',
     'Transient and permanent EIO, short reads of raw streams, failing allocations.')
prop('S08', 'Concurrent saving and loading do not disturb each other',
     'Several threads that load and save surfaces at once, including saving one surface in several formats to different '
     'targets, each get what they would get alone: every written file is complete and right and every loaded surface '
     'equals its file. Saving and loading never change the surface that is saved, its parameters or its layers.',
     ['schedules', 'inputs', 'histories'],
     'every interleaving of up to four concurrent load and save calls',
     'The tests use one thread.',
     [COMMON] + READERS, [{'name': 'no shared state between reader and writer calls', 'where': 'file/*.py'}],
     ['files and surfaces after all threads ended'],
     'seeded thread schedules over concurrent loads and saves',
     'Up to four threads.')

# ----------------------------------------------------------------------------------------------------------------- misc
prop('T01', 'The date recorded in a saved file is one instant of the clock',
     'The date and time that saving a surface records in the file is one single instant that the local clock showed during the '
     'call, also when the clock jumps or passes midnight, a month or a year while saving, and when several threads save at '
     'once. A surface that carries a timestamp of its own keeps recording that as its date of creation in formats that '
     'have one.',
     ['schedules', 'configurations'],
     'every clock value and every jump between two readings of the clock',
     'A date assembled from two readings is wrong only when the clock rolls over between them.',
     WRITERS, [{'name': 'timestamp fields', 'where': 'file/sur.py, file/sdf.py'}],
     ['date fields of the written file'],
     'simulated jumping clock behind the writers; recorded date compared with the readings',
     'The clock is read through datetime in the writers.')
prop('N01', 'Example files arrive complete or an error is raised, in bounded time',
     'Listing and loading example files over the network returns exactly what the server holds at that time or raises; a '
     'server that answers with an error or with something else, truncates its answer, drops the connection or never '
     'answers leads to an exception within bounded time, never to a wrong list, a wrong surface or an endless wait. A later call after the network '
     'recovered succeeds.',
     ['fault_sequences', 'inputs'],
     'every sequence of network faults over listing and loading',
     'The tests cannot use the network.',
     ['surfalize/examples.py', COMMON], [{'name': 'requests with a time limit and status check', 'where': 'examples.py _get'}],
     ['list_examples(), ExampleFile.load()'],
     'simulated transport with delays, stalls, errors and truncation in virtual time',
     'The transport below the requests session is simulated; time limits are judged in simulated seconds.')
prop('P01', 'The command line converter acknowledges only complete conversions',
     'Every file that the convert command reports as converted exists at the reported place and holds the heights, '
     'spacing and (unless skipped) image layers of its source; converting a directory into another covers every supported '
     'file in it, whatever the letter case of its suffix, without one result overwriting another, and leaves the sources as '
     'they were. If reading or writing any file fails the command ends with an error '
     'instead of a success.',
     ['fault_sequences', 'inputs', 'configurations'],
     'every set of input files, target format, option and storage fault',
     'There are no tests of the command line tool.',
     ['surfalize/cli.py', COMMON] + WRITERS, [{'name': 'convert command', 'where': 'cli.py convert'}],
     ['output, exit status and files of the command'],
     'real command under disk faults, outputs loaded and compared',
     'Runs in process through click; disk faults as for saving.')

prop('P02', 'The report command makes a complete, true report for every topography',
     'Every report the report command says it created exists beside its source under a name of its own, is a complete PDF '
     'document that names the file and states the parameters and shows the plots of that file after the requested '
     'operations, whatever was left there by an earlier run. A directory is covered completely: every supported file in it, '
     'whatever the letter case of its suffix. The sources stay as they were, and if reading, processing or writing any file '
     'fails the command ends with an error instead of a success.',
     ['fault_sequences', 'inputs', 'configurations'],
     'every set of files, combination of options and storage fault',
     'There are no tests of the command line tool.',
     ['surfalize/cli.py', COMMON, SURF], [{'name': 'report command', 'where': 'cli.py report'}],
     ['output, exit status and files of the command'],
     'real command under disk faults, the PDF parsed and compared with freshly calculated values',
     'Runs in process through click; disk faults as for saving; the OpenGL renderer of the 3D plot is a stand-in that records '
     'the surface it was given, the 2D plot is rendered at a small size.')

prop('P03', 'Extracting an archive delivers every measurement or raises',
     'When extracting an archive of measurements (.cag) returns, every measurement it holds exists completely and unchanged '
     'in the target directory under the file name it was recorded with, whatever the system on which it was recorded and '
     'the characters of its name; several measurements of the same name are all kept, the archive and other files in the '
     'target directory stay as they were. An archive that is cut off or damaged in its contents, or a storage that fails '
     'while reading or writing, leads to an exception; repeating the extraction after that gives everything. Archives can '
     'be extracted by several threads at once, also into one new directory.',
     ['fault_sequences', 'inputs', 'schedules'],
     'every archive layout, set of names, position of a storage fault or cut, and interleaving of concurrent extractions',
     'There are no tests of archives.',
     ['surfalize/file/cag.py'], [{'name': 'archive extraction', 'where': 'file/cag.py extract_cag'}],
     ['exception of extract_cag()', 'files in the target directory'],
     'real extraction under disk faults, damaged archives and seeded schedules',
     'Archives come from an independent builder; names in the index are XML-escaped, paths of Windows or POSIX style.')

prop('D01', 'The same inputs give the same results in every process',
     'Loading a file, calculating parameters, processing and saving a surface, executing a batch and converting a directory '
     'give exactly the same results for the same inputs: the same values, image layers and metadata in the same order, the '
     'same columns and the same files. They do not depend on the hash seed, the locale encoding, the time zone, the wall '
     'clock (except for the dates that are recorded in saved files), the working directory, the order in which a directory '
     'is listed (except for the order of the rows of a batch over a directory), the state of the random generators, print '
     'settings, warning filters, disabled assertions, or on what the process did before and in which order.',
     ['histories', 'configurations', 'inputs'],
     'every pair of processes that get the same inputs',
     'Tests run in one process with one hash seed, locale, time zone and order and compare with stored values.',
     [COMMON, SURF, PROF, BATCH, 'surfalize/cli.py', 'surfalize/file/gwy.py'],
     [{'name': 'readers and their shared layouts and caches', 'where': 'surfalize/file'},
      {'name': 'file lists and columns of a batch', 'where': 'batch.py'}],
     ['results of the calls in two processes'],
     'the same actions in two interpreters whose surroundings differ by seeded choice, results compared exactly',
     'Two interpreters on one machine with the same numeric libraries; single-threaded; file names are ASCII.')

prop('P04', 'The show command shows the file as it is now or fails',
     'When the show command ends successfully it has shown exactly one plot, 2D or 3D as asked for, of the heights and '
     'dimensions that are in the file at that moment after the requested operations (or it has said that there is no window '
     'system); whatever was shown before, and whatever the file contained then. Options that exclude each other, a damaged '
     'file, an operation that is not possible and a read error or lack of memory never lead to a successful end with other '
     'heights on the screen. No file and no plot setting is changed.',
     ['histories', 'fault_sequences', 'inputs'],
     'every sequence of calls, contents of the file, combination of options and position of a read or allocation fault',
     'There are no tests of the command line tool.',
     ['surfalize/cli.py', COMMON, SURF, 'surfalize/plotting.py'], [{'name': 'show command', 'where': 'cli.py show'}],
     ['what is shown', 'exit status and output', 'files and plot settings afterwards'],
     'real command in sequences of calls under read and allocation faults; what reaches the window compared with the recorded heights',
     'Runs in process through click; the window system and pyvista are stand-ins that record what they are given.')

prop('V01', 'Plots show the object as it is now and change nothing else',
     'Every plot (topography and image layers, profiles, autocorrelation, Fourier transform, angular spectrum, material ratio '
     'curve, 3D scene) shows what the same plot of a freshly made object with the same heights, spacing and layers shows, '
     'whatever was calculated, edited, plotted or failed before and while other threads read the object. The plot of a '
     'topography shows exactly its heights over its width and height, with non-measured points in the colour asked for and '
     'marked in the legend, and that of a profile exactly its heights over its length. Plotting draws only on the axes given '
     'or in one new figure: other axes and figures, colormaps, plot settings and the object stay as they were. A plot saved to a '
     'file is there completely, or the call raises.',
     ['histories', 'fault_sequences', 'inputs', 'schedules'],
     'every history of edits, reads and plots of an object, set of open figures, position of a storage or allocation fault and '
     'interleaving with threads that read',
     'Rendered output is not compared by tests; plots are made of fresh objects, without other figures and on working disks.',
     [SURF, PROF, 'surfalize/plotting.py', 'surfalize/fourier.py', 'surfalize/autocorrelation.py',
      'surfalize/abbottfirestone.py'],
     [{'name': 'plot methods', 'where': 'surface.py, profile.py, plotting.py'},
      {'name': 'cached derived objects that are plotted', 'where': 'cache.py, autocorrelation.py, fourier.py'}],
     ['contents of the axes and figures', 'saved files', 'the object and other figures afterwards'],
     'seeded histories of edits, plots, faults and concurrent reads; the contents of all axes compared with those of a fresh object',
     'What matplotlib makes of its artists is not judged; pyvista is a stand-in that records the scene. Plots are made by one '
     'thread, others read.')

# ------------------------------------------------------------------------------------------- not addressed by the family
prop('A01', 'Parameters follow their ISO definitions',
     'Every height, hybrid, functional, volume and spatial parameter equals its definition in ISO 25178 or ISO 21920 for '
     'every surface and profile, including the identities between them and their behaviour under scaling, mirroring and '
     'offsets.',
     ['inputs'], 'every height map', 'Tests compare a few sample surfaces with reference values.',
     [SURF, PROF, 'surfalize/abbottfirestone.py', 'surfalize/autocorrelation.py'],
     [{'name': 'parameter methods', 'where': 'surface.py, profile.py'}], ['parameter values'],
     na='A pure function of one array: no concurrency, time, I/O, randomness or crash for a simulator to decide. Only its '
        'stability over histories, schedules and faults is simulated (C01, C03, B01).')
prop('A02', 'Operations do to the heights what they are documented to do',
     'Levelling removes the fitted plane, filters remove the wavelengths beyond their cutoff, cropping, zooming and '
     'rotating keep the spacing consistent, and filling leaves no non-measured point.',
     ['inputs'], 'every height map and argument', 'Tests check a few arrays.', [SURF, BASE, 'surfalize/filter.py'],
     [{'name': 'operations', 'where': 'surface.py'}], ['heights after the operation'],
     na='A pure function of one array and its arguments; nothing nondeterministic to simulate. Independence, in-place '
        'equivalence and failure atomicity of the operations are simulated (C02, C03).')
prop('A03', 'File name patterns extract the right fields',
     'A file name pattern extracts exactly the typed fields it describes from every matching name and reports a parsing '
     'error for others.',
     ['inputs'], 'every pattern and file name', 'Tests hold some patterns.', [BATCH],
     [{'name': 'FilenameParser', 'where': 'batch.py'}], ['extracted columns'],
     na='String parsing without schedule, time, I/O or fault; that extracted values reach the right row under every '
        'schedule is part of B01.')
prop('A04', 'Profile extraction, averaging and step height geometry',
     'Profiles extracted horizontally, vertically or obliquely, averaged profiles and step heights correspond to the '
     'heights along the requested line or region.',
     ['inputs'], 'every surface and line', 'Tests check some lines.', [SURF, PROF],
     [{'name': 'profile extraction', 'where': 'surface.py'}], ['profiles'],
     na='A pure geometric function; that extracted profiles do not share state with their surface is simulated (C02).')


def main():
    sys.path.insert(0, os.path.join(VERIF, 'sim'))
    import registry
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in P:
            if p['na'] is None and p['id'] not in registry.WHERE:
                continue
            a = {'files': p['files'], 'mechanism': p['mechanism'], 'observe_at': p['observe'], 'hook_needed': None}
            if p['state']:
                a['state'] = p['state']
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': a}, ensure_ascii=False) + '\n')
    m = {'version': 1, 'setup_cmd': './check.sh setup', 'checks': [], 'not_applicable': [],
         'notes': 'No hooks in /repo: every seam is reached from outside (standard library primitives, file opening, '
                  'transport adapter, clock and allocator are replaced in the checking process).'}
    for p in P:
        if p['na'] is not None:
            m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
        elif p['id'] in registry.WHERE:
            m['checks'].append({'property': p['id'], 'quick_cmd': f'./check.sh {p["id"]}',
                                'thorough_cmd': f'./check.sh {p["id"]} --thorough',
                                'technique': TECH + p['tech'], 'level': 'exploration',
                                'level_note': 'Seeded search, no exhaustiveness. ' + p['note']})
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')


main()
