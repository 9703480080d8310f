"""Source of properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md (see mkdocs.py)."""

P = []


def prop(id, title, statement, over, text, why, files, mechanism, design, level_note, observe_at=(), technique="", level=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  design=design, level_note=level_note, observe_at=list(observe_at), technique=technique, level=level))


S = "src/spectrocrunch/"

prop("C01", "File and HDF5 paths behave like one tree of files, directories and links",
     "For every history of creating, moving, renaming, copying, linking and removing nodes through the path interface, the local directory or HDF5/NeXus file holds exactly the tree (node kinds, link targets, contents) that the operations describe, and path queries (existence, kind, listing, resolution, node statistics) agree with it. "
     "An operation that cannot be done raises the documented error class and leaves the tree unchanged. "
     "Links inside a moved or copied tree keep pointing to the corresponding nodes, links out of it keep their destination.",
     ["histories", "inputs"], "every history of operations on trees of up to a dozen names and several levels, on local directories, HDF5 and NeXus files, with soft links, hard links, broken and cyclic links",
     "the tests run one fixed script of operations per back-end; operation order, links and name collisions multiply beyond what a script samples",
     [S + "io/fs.py", S + "io/localfs.py", S + "io/h5fs.py", S + "io/nxfs.py"],
     [("one abstract Path class with back-end primitives", S + "io/fs.py"), ("link redirection on move/copy", S + "io/h5fs.py")],
     "Model-based monitor: an executable tree model (dict of nodes, independent of the code) executes the same history; after *every* operation the real tree is read by os.walk/os.readlink or h5py (not by the code under test) and compared with the model, then the API queries are compared with the model too; refused operations are compared on error class and unchanged tree. Excluded because unspecified: a destination that is itself a link, moving relative links to other directories, copying into itself, creation below a file or through a broken link, recursive find.",
     "Exploration: quiet on all explored histories (hundreds of histories x 6-30 operations quick; thousands thorough). Trusts os, h5py and the tree model.",
     ["os.walk / h5py view of the tree after every operation", "return values and error classes of the path operations"],
     "model-based runtime monitoring: executable tree model vs real tree after every operation")

prop("C02", "Open modes are honoured and read-only devices never change",
     "Opening a file or an HDF5 device in a mode does exactly what the mode says: read modes never create or change anything, exclusive creation fails on existing targets, truncation happens only when asked. "
     "No operation through a read-only device or path changes a byte of it. "
     "A move or copy between devices delivers the complete tree, and when a file-system call of the transfer fails, the source is never lost.",
     ["configurations", "fault_sequences", "histories"], "all device modes x requested modes x present/missing targets; random operations on read-only devices; every file-system call of a cross-device transfer failing",
     "tests open a few files in one or two modes and never inject failing system calls",
     [S + "io/fs.py", S + "io/localfs.py", S + "io/h5fs.py"],
     [("mode restriction per device", S + "io/h5fs.py"), ("EXDEV fallback copy+remove", S + "io/localfs.py")],
     "Fault injection + trace oracle: exhaustive table device mode x requested mode x target state against the documented semantics of the modes; byte-exact digests of read-only files around random operation sequences; cross-device transfers (os.rename returns EXDEV; HDF5 to HDF5) in which the k-th file-system call fails for each k; after it, source or destination must hold the complete tree. Not claimed: explicit 'w' on an exclusive-creation device.",
     "Fault enumeration within the generated trees; EXDEV is simulated at os.rename because mounts are not available.",
     ["file digests", "content after an injected failure"],
     "fault injection at file-system calls with independent state oracle")

prop("C03", "A process in a NeXus file is identified by its parameters and dependencies",
     "Asking for a process with the same parameters and dependencies (in whatever order or equivalent type) returns the existing one, and with different ones a new, never previously used one; other processes stay untouched. "
     "The stored configuration reads back equal to what was given, dependencies are recorded, and the stored checksum is valid exactly for the stored content.",
     ["histories", "inputs"], "all histories of process creation and look-up in one file, parameter trees, dependency lists, several entries and name families",
     "tests create two or three processes with one parameter set each",
     [S + "io/nxfs.py", S + "io/target.py", S + "utils/hashing.py"],
     [("checksum of parameters and dependencies", S + "io/nxfs.py"), ("numbered names", S + "io/target.py")],
     "History oracle: a table keyed by (parameters, dependencies, name family) predicts for each request whether an existing or a fresh path is due; the file is read back with h5py. Parameters are JSON-able trees.",
     "Exploration of request histories; trusts the reference table.",
     ["returned paths", "h5py view of the file"],
     "history-based monitor with reference table")

prop("C04", "NXdata signals, axes and default plot stay consistent",
     "After any sequence of adding, removing and sorting signals, setting axes and choosing default signal or default plot, the file shows exactly the signals, axes (names, values, units, order) and defaults that were requested, in a form that a NeXus reader finds by following the default attributes. "
     "A refused operation (wrong shape, wrong class, conflicting axis) leaves the group as it was.",
     ["histories", "inputs"], "histories of signal/axis/default operations on several groups, entries and processes with refused operations mixed in",
     "tests build one group by one sequence of calls and read it with the same code",
     [S + "io/nxfs.py", S + "io/nexus.py"],
     [("signal/auxiliary_signals/axes attributes", S + "io/nxfs.py"), ("default attribute chain", S + "io/nxfs.py")],
     "History oracle: a model of the group is updated with each operation; after each, attributes and datasets are read with h5py and compared, and the API view too. Which remaining signal becomes the default after the default one is removed is not specified.",
     "Exploration; trusts h5py and the model.",
     ["h5py view after each operation"], "model-based runtime monitoring of NeXus groups")

prop("C05", "A task's output appears completely or not at all",
     "Whatever interrupts a task - an exception or signal at any step, or the death of the process between file operations - the HDF5 output path afterwards holds either the complete result or nothing, the input and other results are intact and no temporary group is left by a task that could clean up. "
     "Running the task again then completes it. "
     "A complete output is never replaced by an incomplete one.",
     ["crash_points", "fault_sequences"], "every step of a task x exception, interrupt, termination signal or kill; the k-th HDF5 write or creation failing, for tasks written against the task interface and for the shipped ones",
     "tests only run tasks to completion",
     [S + "process/basetask.py", S + "process/nxprocess.py", S + "io/nxfs.py", S + "utils/signalhandling.py"],
     [("temporary name, then rename", S + "process/basetask.py"), ("termination handling", S + "utils/signalhandling.py")],
     "Fault enumeration: the fault is placed at every step (before/between/after each write, or at the k-th h5py write/creation/move) for every kind of interruption; SIGKILL in a child process. After each, the file is read by h5py and must hold all or nothing; a watcher also looks at the visible path at every HDF5 primitive while the task runs; then the task is re-run and must complete. Bounds: SIGKILL only between operations (HDF5's own crash consistency within a write is the library's limitation); the directory of locally written files is only claimed after completion; a signal whose original handler is SIG_DFL is swallowed by design.",
     "Every single fault position of the driven tasks is enumerated; combinations of faults are not.",
     ["h5py view of the output at every HDF5 primitive and after the fault"],
     "fault enumeration (exceptions, signals, SIGKILL, failing HDF5 calls) with atomicity oracle")

prop("C06", "The same work is done once, and concurrent work is not disturbed",
     "Executing the same chain of tasks again does not change the file and yields the same outputs; changed parameters yield new outputs next to the old. "
     "Tasks that interleave on one file each end with the result they would have had alone, and identical tasks end with one shared result. "
     "Processes that modify one HDF5 file under its lock never lose an update.",
     ["schedules", "histories"], "chains of up to three tasks run twice in any equivalent form; deterministic interleavings at every step of a task; several processes on one file",
     "tests run tasks one after another in one process",
     [S + "process/basetask.py", S + "process/nxprocess.py", S + "io/nxfs.py", S + "io/h5fs.py", S + "io/nexus.py"],
     [("checksum lookup before execution", S + "process/nxprocess.py"), ("lock/retry on open", S + "io/h5fs.py")],
     "Interleaving driver: at each step of a task another task (same or other parameters) is run to completion, so that all single-preemption schedules of the driven tasks are enumerated; digests of the file around a repeated chain; worker processes increment one HDF5 counter with injected delays, and the sum must be conserved. Threads are not supported upstream; opening a locked file with mode w truncates it (HDF5) and is excluded.",
     "Single-preemption schedules of driven tasks are enumerated, process schedules sampled with injected delays.",
     ["file digests, h5py view, number of outputs, final counter"],
     "schedule exploration and conservation checking over concurrent tasks")

prop("C07", "Tear-down runs exactly once and signal handlers are restored",
     "Whatever ends a termination context (normal end, exception, interrupt, termination signal, nested or not, failing set-up or tear-down), its tear-down runs exactly once when its set-up started, the exception or signal continues as documented, and afterwards the handlers of all signals are the original ones.",
     ["fault_sequences", "programs"], "programs of nested and sequential contexts with raising/swallowing set-up and tear-down and signals at statement boundaries or traced lines",
     "tests send two signals to one context",
     [S + "utils/signalhandling.py"],
     [("handler save/restore", S + "utils/signalhandling.py")],
     "Reference interpreter: random programs are executed for real (real kill() at statement boundaries or at traced lines of the body) and by a small interpreter of the documented semantics; the logs of set-up, tear-down, handler calls and the outcome must agree, and signal.getsignal must be back to the original.",
     "Exploration; one signal per program point; handlers that run inside the set-up/tear-down machinery itself are only reached through the tracer.",
     ["log of set-up/tear-down/handler calls", "signal.getsignal"],
     "signal fault injection with a reference interpreter over event logs")

prop("C08", "Temporary nodes never collide and never outlive their context",
     "A temporary file, directory or node gets a name that did not exist before, and after its context, however it ended, it is gone or (if requested) renamed to its destination completely; nothing else in the directory or file changed.",
     ["fault_sequences", "histories", "inputs"], "pre-existing content x what the body does x how it ends x options, forced name collisions, concurrent creators",
     "tests use an empty directory and the normal ending",
     [S + "io/fs.py", S + "io/localfs.py", S + "io/h5fs.py", S + "io/utils.py"],
     [("temp() context", S + "io/fs.py"), ("TemporaryFilename/Copy", S + "io/utils.py")],
     "State oracle: the directory/HDF5 file is snapshotted independently before and after; collisions are forced with a tiny alphabet and a replayed random generator; processes race on mkdir. temp() with a link as body is only partially specified.",
     "Exploration over bodies x endings x options.",
     ["os/h5py snapshots around the context"], "snapshot-based runtime monitoring with forced collisions and faults")

prop("C09", "Pixel-wise tasks compute what their parameters say, on every pixel",
     "Cropping, replacing, minus-log and expression tasks give for each signal and pixel the value that a direct evaluation of the parameters gives, whether the data is processed in slices or in memory; skipped or copied signals, axes and metadata are as requested; the input is unchanged. "
     "Expressions follow the usual arithmetic rules.",
     ["inputs", "configurations"], "inputs of 2-4 dimensions, 1-3 groups, 1-4 signals, any stack dimension and nan pattern x parameters x sliced/in-memory; generated expression trees",
     "tests check one map per task, only shapes or one formula",
     [S + "process/nxcrop.py", S + "process/nxreplace.py", S + "process/nxminlog.py", S + "process/nxexpression.py", S + "process/nxregulargrid.py"],
     [("slice generator", S + "process/nxregulargrid.py"), ("expression parser", S + "process/nxexpression.py")],
     "Differential oracle: numpy evaluates the parameters on the whole array; the output file is read with h5py and compared per signal and axis; sliced and in-memory runs must agree; expression trees are evaluated by python. Not claimed: signal order when signals are skipped, integer data with replace, sliced reductions, trunc/round/sobel.",
     "Exploration against a numpy reference.", ["h5py view of output and input"], "differential runtime checking against numpy on generated inputs")

prop("C10", "Resampling puts values at the positions where they were measured",
     "After resampling on encoder positions, the value at each position of the new axes equals the measured quantity at that real position (within the interpolation error of the chosen order), positions outside the measured range are marked invalid, and the other signals and axes follow consistently. "
     "The interpolation helpers reproduce nodes and functions of their order, and fill outside the domain.",
     ["inputs", "configurations"], "maps with jittered/drifting/sheared encoder positions, increasing or decreasing axes, stacks, crop or not, order 0/1, given or fitted offset",
     "tests use one synthetic map",
     [S + "process/nxresample.py", S + "math/interpolate.py"],
     [("encoder fit", S + "process/nxresample.py"), ("interpolation", S + "math/interpolate.py")],
     "Analytic oracle: signals are known functions of the real position, so the value due at each resampled position is known.",
     "Exploration; tolerance from the order of the interpolation.", ["h5py view of the output"], "analytic-oracle runtime checking")

prop("C11", "Alignment undoes the displacement and never misplaces, loses or invents pixels",
     "Aligning stacks of displaced images on one of them yields, for a fixed or pair-wise reference, on raw or aligned images, with or without region of interest, pre-transformation or processing of the reference, transformations that undo the displacement of each image (exactly for the extrema of whole pixels, within the accuracy of the method otherwise). "
     "Each pixel of each image of all stacks then ends up at its place in the common frame: with padding nothing is lost, with cropping nothing is missing, otherwise only what leaves the frame is lost; the axes describe that frame; redoing gives the same; the sources are unchanged. Holds for arrays, HDF5 and EDF files as source or destination, for any stack dimension, for images and vectors.",
     ["inputs", "histories", "configurations"], "stacks of 2-5 images or vectors cut from random scenes at known displacements x 5 methods x sources x destinations x options, repeated and redone",
     "tests only check the average displacement of a constant drift, never the pixels",
     [S + "align/align.py", S + "align/alignSimple.py", S + "align/alignFFT.py", S + "align/alignSource.py", S + "align/alignDest.py", S + "align/transform.py", S + "math/center.py"],
     [("frames of reference, padding and cropping", S + "align/align.py"), ("marker and FFT kernels", S + "align/alignFFT.py"), ("image transformation", S + "align/transform.py")],
     "Ground-truth oracle: images are windows on a scene the check generated, so each output pixel has a known value or is known to be missing. Pixels are compared exactly for min/max and whole pixels; other methods are held to their accuracy (0.002-0.15 pixel). Frame extension in case of a pre-transformation and sift/elastix (not installed) are not claimed.",
     "Exploration with ground truth.", ["output pixels, axes, change-of-frame matrices"], "ground-truth runtime checking of aligned stacks")

prop("C13", "Axes never lose or move positions",
     "Simplifying, converting units, resizing, cropping, expanding or looking up an axis gives positions equal (within the axis precision) to those of the plain list of positions it stands for, in consistent units; operations that derive a new axis leave the original unchanged. "
     "Looking up a position returns its index, and lookups between different axes preserve the position.",
     ["inputs", "histories"], "axes of every kind (number, regular, segments, irregular, scans, nominal) x units x precision x histories of conversions, setters and lookups",
     "tests use a few axes with one unit",
     [S + "process/axis.py", S + "utils/units.py"],
     [("axis classes and simplify", S + "process/axis.py")],
     "Model monitor: a plain numpy array in base units follows each history. Cropping limits only for regular axes; title of dimensionless axes not claimed.",
     "Exploration against numpy positions.", ["axis values in base units"], "model-based runtime monitoring of axis histories")

prop("C14", "Grids in files behave like the numpy array they represent",
     "A grid over the signals of a NeXus group (or in memory) has the shape, type, axes and values of the corresponding stacked array, for every stack dimension: indexing, slicing, item assignment and in-place arithmetic read and write exactly the elements numpy would, in the file, and no others. "
     "Interpolation of a grid reproduces multilinear data.",
     ["histories", "inputs"], "groups of 1-4 signals and 1-3 dimensions, every stack dimension, histories of reads and writes",
     "tests read a few slices of one grid and never write",
     [S + "process/regulargrid.py", S + "process/h5regulargrid.py", S + "process/nxresult.py", S + "utils/indexing.py"],
     [("generator-based indexing", S + "utils/indexing.py"), ("grid classes", S + "process/h5regulargrid.py")],
     "Differential history oracle: a numpy array executes the same history; the file is read back with h5py after each write. h5py-style indices for grids in files (h5py itself refuses others).",
     "Exploration against numpy.", ["h5py view after each write"], "differential runtime checking against numpy over operation histories")

prop("C15", "Indexing a stack of arrays equals indexing the stacked array",
     "Reading or writing any index of a lazily stacked list of arrays gives the same elements, shape and side effects as numpy on the stacked array, and touches only the arrays that are selected. "
     "Index utilities (shape computation, expansion, sortedness, no-change detection) agree with numpy.",
     ["inputs"], "stacks of 1-4 dimensions x any stack axis x integers, slices of any step, lists, boolean lists, ranges, Ellipsis, newaxis",
     "tests sample a grid of indices without boolean lists, and assignment rarely",
     [S + "utils/indexing.py"], [("index decomposition", S + "utils/indexing.py")],
     "Differential oracle against numpy; the generator records which arrays were touched. Zero-length Ellipsis excluded.",
     "Exploration against numpy.", ["results, shapes, access log"], "differential runtime checking against numpy with access log")

prop("C16", "Content hashes identify content",
     "Data with equal content (whatever order of mapping keys or set elements, equivalent number, text or sequence representation, process or hash seed) has the same hash, and changing any leaf, key or order of a sequence changes it.",
     ["inputs", "configurations"], "nested data up to depth 4 in re-ordered, re-typed and edited forms, several interpreters",
     "tests compare a handful of literals in one process",
     [S + "utils/hashing.py"], [("recursive hash", S + "utils/hashing.py")],
     "Metamorphic oracle: equal forms must hash equal, one-leaf edits must not; other interpreters with other PYTHONHASHSEED compute the same.",
     "Exploration; hash collisions are taken as impossible.", ["digests"], "metamorphic runtime checking across processes")

prop("C18", "Composed operators are the composition of the functions they stand for",
     "A product of linear operators, clips and user functions, however it is associated, evaluates to the functions applied one after the other (on scalars, arrays and quantities with units), its power repeats it, its inverse gives back every value that no clip removed, and operators that compare equal are equal functions. "
     "Building or inverting a composition leaves its operands unchanged.",
     ["inputs", "histories"], "1-6 random factors in random association, limits open or closed, scalars/arrays/quantities, NaN",
     "tests compose a few operators and check some values",
     [S + "math/linop.py"], [("composition and inverse of operators", S + "math/linop.py")],
     "Reference oracle: plain python functions applied in order. Inverses of clips outside the limits are not specified.",
     "Exploration.", ["operator results"], "reference-model runtime checking of random compositions")

prop("C31", "Detector data files are read and written as what they say",
     "Reading a line, map or stack of detector files (data, statistics, counters; opened by name, number or list of files, among other files) through any index gives the elements of the full array as indexed by numpy, with the requested dead time correction, detector selection and sum, and normalization, whatever was configured, read or failed before, also for the items of a stack or map. "
     "Incomplete lines and maps are left out; saving writes files with exactly that content, never replaces files unless asked; reading never changes files; file names parse, sort, group and search according to radix, map, line and label.",
     ["inputs", "configurations", "histories", "faults"], "maps of 1-3 x 1-4 x 1-5 pixels, 1-4 detectors with gaps, sums, counters, EDF of either byte order; histories of configurations and reads; missing or corrupt files",
     "tests read one map with all detectors, always existing counters, no failures, and slice-type indices",
     [S + "io/xiaedf.py", S + "io/edf.py", S + "utils/indexing.py"],
     [("levels of processing", S + "io/xiaedf.py"), ("file search and grouping", S + "io/xiaedf.py")],
     "Differential oracle: the check writes the bytes of the EDF files itself and computes the corrected array with numpy; after each read of a history values are compared; saved files are parsed byte-wise. Normalization of single lines and maps of different size are not claimed.",
     "Exploration.", ["results of reads", "bytes of saved files"], "differential runtime checking over configuration/read histories with faults")

prop("C22", "Image transformations compose and act consistently",
     "Translations, rigid, similarity, affine and projective transformations hold the parameters they were set with (translation, rotation angle, linear, affine and projective part), compose, invert, change frame and copy as their matrices do (in place or not, the type being the most general of the two) without affecting the operands, and act the same on coordinates, inverse coordinates and images (each pixel is the interpolated image at the mapped position, missing outside). "
     "The transformation found from key points that fit it is the one that maps them.",
     ["inputs", "histories"], "random transformations of each type set in each way x histories of compositions, inversions, copies x images linear in the coordinates x key points",
     "tests compose two rigid transformations and accept 50% error on rigid key points",
     [S + "align/transform.py"], [("linear mappings", S + "align/transform.py")],
     "Model oracle: a 3x3 matrix follows each history and all objects are compared after each operation; images that are linear in the coordinates are exact under linear interpolation. Projective transformation of images and projective key points are not implemented.",
     "Exploration against matrices.", ["matrices, parameters, coordinates, pixels"], "model-based runtime monitoring of transformation histories")

prop("C12", "Merging scans puts every measured point at its place",
     "Stacking or tiling scans (by function, task or merged scan) gives, for every signal, each scan's points at their position in the map (fast axis last) in the slab or tile of that scan, complete lines only when a scan was interrupted, the fill value elsewhere; detector dimensions, scans that are already maps, scalars, texts, links and attributes are preserved. "
     "Stacking along a positioner orders by its value and the axes describe the result. The merged scans are left unchanged.",
     ["inputs"], "1-6 scans x 1-3 dimensions x interrupted at any point x detector dimensions of equal or different size x any tile shape x 1 or more files x title formats",
     "tests tile one set of scans without detector dimensions",
     [S + "process/h5merge.py", S + "process/nxmerge.py", S + "process/nxstack.py", S + "process/nxtile.py"],
     [("virtual layouts", S + "process/h5merge.py"), ("scan shape and order", S + "process/nxmerge.py")],
     "Reference oracle: numpy builds the map line by line from the points; the virtual datasets are read back from the reopened file. blissmerge (imports a module that does not exist) is not claimed.",
     "Exploration.", ["h5py view of merged files"], "reference-model runtime checking of merged files")

prop("C19", "Mean and variance of counted events follow each process of a detection chain",
     "Whatever the number of events, its uncertainty and its shape (number or array): repeating, selecting (Bernoulli) and multiplying (Poisson) events, sums, ratios and logarithms give the mean and variance of the process, and their reverse gives back what went in. "
     "Area detectors (efficiency, dark current, readout noise, gain, offset, frames), lenses and scintillators compose these processes; transmission and absorbance calculated from images propagate them. Numbers without uncertainty give the mean.",
     ["inputs", "configurations"], "scalars and arrays x uncertainties x processes x detector, lens and scintillator characteristics x spectra x exposure times x forward and backward",
     "tests check one object of each kind for consistency with itself, never against the events of the process",
     [S + "math/noisepropagation.py", S + "detectors/area.py", S + "materials/lenses.py", S + "materials/scintillators.py", S + "simulation/calcnoise.py"],
     [("compound random variables", S + "math/noisepropagation.py"), ("broadcast of counts and energies", S + "simulation/classfactory.py")],
     "Reference oracle: closed formulas of each process; statistical oracle: mean and variance of 200000 simulated events per case (7 sigma); metamorphic: backward after forward.",
     "Exploration. The glass of shipped lenses needs a package which is not installed: lenses get a stand-in glass.", ["means, variances"], "reference-model and statistical runtime checking")

prop("C20", "Fourier transforms are the sums that define them",
     "The one and two-dimensional forward and inverse transforms of any signal, on any equally spaced (sub-)range of real space, with default, centred or given frequencies and either normalization, equal their defining sums and invert each other (also on a window); frequency axes and shifts of any length and convention are the documented ones. The signal is left unchanged.",
     ["inputs", "configurations"], "1-14 points per dimension x spacing x sub-ranges x frequency lists x normalizations x conventions",
     "tests use two sizes and two spacings, mostly through numpy's own transform",
     [S + "math/ft.py"], [("matrix Fourier transform", S + "math/ft.py")],
     "Reference oracle: the sums evaluated term by term; frequency axes from the convention in the module header; metamorphic laws (inversion on a window, shift theorem, Parseval).",
     "Exploration.", ["returned transforms"], "reference-model runtime checking of random transforms")

prop("C21", "Fits and peak searches return the optimum and its propagated uncertainty",
     "Linear least squares (plain, with missing values, non-negative, bounded, normalized) returns the optimum within its constraints and the standard errors implied by the given variances, covariances or residuals; Gaussian fits recover the peak that generated the data on any coordinates; "
     "the maximum, centroid and Gaussian centre of an image follow the image when it is mirrored or transposed and ignore missing pixels where documented. Slices of an array cover every element once and fit in the memory limit; rounding keeps the asked digits; quadrics are zero on their surface in any frame.",
     ["inputs"], "systems of 1-4 unknowns x error models x bounds; peaks of random position, width and axes; images with missing pixels; shapes of 1-4 dimensions; digits; quadrics x frames",
     "tests use one system, one integer-coordinate peak and four shapes",
     [S + "math/fit1d.py", S + "math/fit2d.py", S + "math/center.py", S + "math/slicing.py", S + "math/lsqlin.py", S + "math/utils.py", S + "math/quadrics.py"],
     [("least squares and error propagation", S + "math/fit1d.py"), ("window around the maximum", S + "math/center.py")],
     "Reference oracle: normal equations with explicit inverses, enumeration of active bounds, closed formulas; metamorphic relations for images.",
     "Exploration; singular systems are not claimed.", ["solutions, standard errors, positions, slices"], "reference-model and metamorphic runtime checking")

prop("C23", "Materials keep one ledger of moles, masses and volumes",
     "Any chemical formula (nested groups, fractional amounts), element list, compound or mixture, built from or changed by mole, mass or volume fractions, gives the mole, mass and volume fractions, equivalents, molar mass, effective atomic number, density and elemental composition of the same amounts of matter, also as one compound, serialized, or exported to PyMca and fisx; what is not a formula is refused. "
     "Cross sections (total or decomposed), absorption and refractive index are the mass-weighted sums over the elements, restricted to marked absorbers and scatterers. Data base look-ups give the named material, independent of what was done to an earlier copy.",
     ["inputs", "histories"], "random formulas x element and compound lists with duplicates x fraction types x histories of additions and changes x energies (number, list, array) x absorber and scatterer marks x all data base names",
     "tests use a handful of formulas and two-compound mixtures with the same number of atoms",
     [S + "materials/stoichiometry.py", S + "materials/compound.py", S + "materials/mixture.py", S + "materials/multielementbase.py", S + "materials/compoundfromformula.py", S + "materials/compoundfromdb.py", S + "materials/compoundfromname.py", S + "materials/compoundfromelement.py", S + "materials/element.py"],
     [("fraction conversions", S + "materials/stoichiometry.py"), ("composition of mixtures", S + "materials/mixture.py"), ("formula parser", S + "materials/compoundfromformula.py")],
     "Reference oracle: a ledger of moles per element and compound kept by the check next to each history; cross sections and form factors summed from xraylib directly. Materials are equal by name (by design), so names are unique; crystal structures (cctbx, fdmnes not installed) are not claimed.",
     "Exploration.", ["fractions, densities, cross sections"], "reference-model runtime monitoring of composition histories")

prop("C24", "A stack of layers absorbs and emits as the sum of its parts, at any moment",
     "For any stack, angles, filters and sequence of changes (thickness, density, material, angles, detector position, filters), refused calls, copies and serializations in between: absorbance and transmission (in or out, weighted, per layer), areal densities and composition, and propagated photon numbers are those of the layers as they are now; "
     "analytical and numerical primary rates of each line and source line equal the integral over depth of what reaches, interacts and leaves times solid angle, filters and detector response, finite in every geometry. Refining thickness, density or composition of free layers from an absorbance finds the stack that caused it. Absorbers and scatterers are marked in every layer.",
     ["inputs", "configurations", "histories"], "1-4 layers of elements, compounds, mixtures x reflection, transmission and symmetrical geometries x 1-3 lines x 1-2 sources x filters x histories of changes and failing calls x fixed or free layers x weights x constant",
     "tests compare three methods of the code with each other on three samples, without changes between calls; no test refines with a constant, with density or reuses a copy",
     [S + "materials/multilayer.py", S + "materials/elementbase.py", S + "utils/cache.py", S + "materials/utils.py"],
     [("cached depth and attenuation tables", S + "materials/multilayer.py"), ("depth integral of primary rates", S + "materials/multilayer.py"), ("refinement", S + "materials/multilayer.py")],
     "Reference oracle: attenuation summed from xraylib's elements and a Gauss-Legendre depth integral kept by the check, with the interaction probability of the material (C17, C23); inverse oracle for refinements; monitors of state after refused calls and copies.",
     "Exploration. Higher-order interactions and Monte Carlo codes (not installed) are not claimed; refinement only where the problem determines the answer.", ["absorbances, rates, refined layers"], "reference-model runtime monitoring of histories")

prop("C17", "Lines, shells and spectra are the tabulated ones and every sum of them adds up",
     "Any line, shell or selection of them (by name, code, shell, energy range, shell group) is the tabulated set with tabulated energies, rates, yields and widths, no more and no less; scattered photons have their kinematic energy. "
     "The spectrum of any material or sample holds each line once with its cross section or rate; sums over sources, lines, groups, probabilities, peaks and detector channels account for all of it; adding spectra adds their lines and leaves the operands alone.",
     ["inputs", "configurations"], "elements 3-92 x all lines and shells x selections x energy ranges x source energies and weights x materials and stacks x angles x channel calibrations",
     "tests check the uniqueness of line names and plot a handful of spectra",
     [S + "materials/xrayspectrum.py", S + "materials/interaction.py", S + "materials/element.py", S + "patch/xraylib.py"],
     [("line and shell selections", S + "materials/xrayspectrum.py"), ("spectrum decomposition", S + "materials/xrayspectrum.py")],
     "Reference oracle: xraylib's tables read directly, Compton kinematics, Gaussian peaks; conservation oracle: every decomposition of a spectrum sums to the spectrum. Lines that xraylib does not tabulate on their own only need to lie in the asked range.",
     "Exploration.", ["lines, shells, spectra"], "reference-model and conservation runtime checking")

prop("C25", "Detectors filter, convert and broaden what they see as configured",
     "After any history of filters added, replaced, refused and removed (beam side, detector side, both, atmosphere of a moving geometry), a detector has the filters it was given, on the side they were given for, and its transmission and efficiency are the exponentials of their absorbances. "
     "Peaks, tails and steps of a line have the configured widths, fractions or ratios, areas and sum, in both parametrizations, which describe the same peak at the conversion energy. Solid angle, distance and area of a geometry follow from each other. Shipped detectors take their arguments; copies and serialized objects behave like the original and do not share filters with it or with the arguments.",
     ["inputs", "histories", "configurations"], "filter histories x 4 detector kinds x units x energies (number, array) x peak parametrizations, switches and line widths x distances and areas x all shipped detectors",
     "tests check the area of one profile of each parametrization and one solid angle calibration",
     [S + "detectors/base.py", S + "detectors/xrf.py", S + "geometries/base.py", S + "geometries/xrf.py", S + "materials/multielementbase.py", S + "utils/copyable.py"],
     [("filter bookkeeping", S + "detectors/base.py"), ("peak shape and conversion", S + "detectors/xrf.py")],
     "Reference oracle: a dictionary of filters kept next to each history with exponentials of xraylib cross sections; Voigt, exponentially modified Gaussian and error functions from scipy with areas by quadrature; solid angle formula.",
     "Exploration. Shallow copies (copy.copy) share filters by design; weights of pymca-normalized profiles count all ratios, also of terms that are switched off; conversion is claimed with the Gaussian on.", ["filters, efficiencies, profiles, solid angles"], "reference-model runtime monitoring of histories")

prop("C26", "Diodes turn photons into counts and back, as they were calibrated",
     "For any diode (gain in V/A or A, dark current, oscillator offset, optics, filters, secondary target, before or after the sample) and any source (lines, weights, several sources): charge, current, voltage, frequency and photons per second follow the response of the diode, and every conversion is undone by its inverse; the fluorescence normalization and gain derived from a response reproduce it. "
     "After a calibration of solid angle, thickness, optics or look-up table the diode returns the flux it was calibrated with, and only the chosen quantity changed; dark calibrations return zero flux in the dark. Look-up tables behave like sorted dictionaries with interpolation. Copies and serialized diodes behave like the original.",
     ["inputs", "configurations", "histories"], "shipped and generic diodes x 1-3 sources x 1-3 lines x weights x gains and units x optics tables x targets x calibration options x noise-free synthetic data x table histories",
     "tests calibrate two diodes at fixed energies with one line",
     [S + "detectors/diode.py", S + "optics/base.py", S + "optics/xray.py", S + "utils/lut.py", S + "math/linop.py", S + "geometries/diode.py"],
     [("conversion chain", S + "detectors/diode.py"), ("calibration", S + "detectors/diode.py"), ("look-up table", S + "utils/lut.py")],
     "Reference oracle: charge per photon from xraylib's cross sections and the configuration kept by the check, conversion formulas in plain floats; inverse oracle for calibrations (synthetic data from another diode or flux); table oracle: a dictionary next to each history.",
     "Exploration. Thickness calibrations where the diode already absorbs everything, and optics or thickness calibrations with several lines at once, are not claimed.", ["conversions, calibrated parameters, tables"], "reference-model runtime monitoring of conversions and calibrations")

prop("C27", "Quantitative setups keep their parts consistent and return the calibrated flux",
     "After any history of moving, calibrating, resizing and copying a detector on a motor (shipped and generic, either direction, any units), position, zero, distance and solid angle agree; fits of a motor scan recover the distance and area that caused it. "
     "In a quantitative setup, in any order of replacing optics, source, diodes, detectors, filters, angles, references and times: all parts share one source, the flux monitor has the optics, every detector has the filters; flux operators, normalization and quantification info are those of the current parts, and different beam filters are refused. "
     "Calibrated with dark and flux measurements (counts, rates, currents, photons, gains asked or derived, from a spec file or not, one or a batch) it returns the flux it was calibrated with; measurements with other devices or gains are refused unless a reset is asked. Copies and serialized setups are equal and independent.",
     ["inputs", "histories", "configurations"], "histories of 2-7 operations x shipped and generic geometries x units; setups of 1-3 detectors x instruments x diodes x optics x references; calibrations of 1-3 energies x forms of data",
     "tests move one motor and calibrate one setup at two energies with single numbers",
     [S + "geometries/qxrf.py", S + "geometries/xrf.py", S + "geometries/base.py", S + "instruments/configuration.py", S + "io/spec.py", S + "detectors/diode.py"],
     [("motor ledger", S + "geometries/xrf.py"), ("consistency of devices", S + "geometries/qxrf.py"), ("diode calibration", S + "geometries/qxrf.py")],
     "Reference oracle: a ledger of sign, zero and position next to each history; for setups, filters and settings kept by the check and the diode's own conversion (C26); synthetic measurements from another diode for calibrations.",
     "Exploration. Fits which are not unique (area and distance both free) may be discarded when they end in another minimum.", ["distances, filters, flux, calibrated response"], "reference-model runtime monitoring of histories")
prop("C34", "XRF maps have the peak areas of the spectra, corrected and added as configured",
     "Spectra made of known peak areas, written as XIA maps, give maps of those areas (and of the mass fractions and flux that go with them) whatever the configuration: detectors in any groups and order, with one or several fit configurations, added before or after fitting or not, corrected for dead time and flux before or after, fast or slow fits, energies in any order, any stack dimension, several radices. Counters are added likewise, axes are those of the scan. "
     "Batch fits of files and fits per energy return the areas and never modify the configuration file. A fit configuration adapted again and again has the source lines relative to the requested energy (disabled lines apart, one high energy line when asked), the requested quantification and groups and nothing else changed.",
     ["inputs", "histories", "configurations"], "pipelines of 1-3 maps x 1-4 detectors x all options; batch fits x options; histories of 1-5 adaptations x 1-3 lines x disabled lines",
     "tests of the pipeline only compare shapes and some values for one layout, and are not among the stable tests",
     [S + "process/nxpymca.py", S + "process/nxlazy.py", S + "process/nxresult.py", S + "xrf/fit.py", S + "pipelines/fluoxas.py", S + "process/nxqxrf.py", S + "io/xiaedf.py"],
     [("batch fit", S + "xrf/fit.py"), ("grouping and adding", S + "process/nxpymca.py"), ("lazy corrections", S + "process/nxlazy.py")],
     "Reference oracle: spectra are sums of unit-area templates from PyMca's own model, configured by the check's own adaptation; dead time and flux decay are applied by the check while writing the files and must be gone from the maps.",
     "Exploration. Peaks at the border of the fitted region, interrupted maps (skipped by design) and non-linear fits are not claimed; for the mass fractions of a sum of sums the average may be over detectors or over groups.", ["maps of areas, mass fractions, counters and axes; configurations"], "reference-model runtime monitoring of pipelines")
prop("C35", "Full-field stacks are the absorbance of the measured frames",
     "Frames of known absorbance, beam and dark current give stacks of exactly that absorbance (or intensity per second, with the flat fields next to it when asked), sorted by energy along any stack dimension: for any number of files per energy, frames per file and exposure times (with or without dark frames for it), flat fields before and after or not, one or more, energies from the header or given per file, files in several places, camera regions, roi with open or negative limits, rebinning, normalization on load or later, and cropping of the result. Axes are the camera coordinates of the (rebinned) pixels; frames of another camera region do not take part.",
     ["inputs", "configurations"], "1-5 energies x 1-3 data files x 1-4 flats x exposures x roi x rebin x options",
     "the test has one data file per energy of the same exposure without roi and rebinning",
     [S + "fullfield/import_id21.py", S + "process/nxfullfield.py", S + "pipelines/id21_ffxas.py", S + "process/nxcrop.py", S + "utils/roi.py"],
     [("reading frames", S + "fullfield/import_id21.py"), ("normalization", S + "process/nxfullfield.py"), ("pipeline", S + "pipelines/id21_ffxas.py")],
     "Reference oracle: the measurement is simulated in float64 by the check (beam, drift, dark patterns, frames) and the stack is computed from the truth with explicit pixel loops.",
     "Exploration. Alignment in this pipeline is C11's; energies without flat fields when these are needed are not claimed.", ["stacks, axes and signals of every task of the pipeline"], "reference-model runtime monitoring of pipelines")

prop("C28", "Polarization states and their scattering follow the field of the wave",
     "For every polarization state - any Jones vector, any partially polarized Stokes vector, any parameter set (intensity, degrees of polarization, angle, handedness) or source built from any subset of them - all descriptions (components, coherency matrix, Stokes, parameters, phases, ellipse of the field, polarized and unpolarized part) describe the same wave and convert into each other without loss, or refuse when something would be lost; changing intensity or axes changes only that. Thomson and Compton scattering in any direction at any photon energy give the intensity and polarization of the radiated field (projection of the incident field, Klein-Nishina) for the number, array, Jones, Stokes and source interfaces alike; Jones matrices act on Stokes vectors as on the waves they consist of.",
     ["inputs"], "special and random states x directions x energies",
     "tests sample a few random states and compare formulas of the code with each other",
     [S + "sources/polarization.py", S + "sources/xray.py", S + "utils/copyable.py", S + "patch/jsonpickle.py"],
     [("states", S + "sources/polarization.py"), ("sources", S + "sources/xray.py")],
     "Reference oracle from first principles: Stokes parameters as intensity differences behind analysers, mixtures as sums over waves, Thomson scattering as projection of the 3D field vector, Compton by Klein-Nishina and Fano's matrix, the ellipse from the time trace of the field.",
     "Exploration. The handedness of a synchrotron source with elliptical polarization must be given; absolute phases are compared when the first component is not (nearly) zero.", ["states, parameters, intensities"], "reference-model runtime monitoring")

prop("C29", "Lookup tables, discrete spectra and quantities keep values with their units",
     "For every history of adding, replacing, merging, clearing, copying, saving and loading lookup tables with keys and values in any (mixed) units, the table holds the sorted unique keys with summed or replaced values, looks up every number, list, array or quantity by interpolation between the keys and the edge value outside (the default when empty), equality means same content, and other tables are not affected. Discrete spectra (energy or wavelength) have the energies, total, ratios and averages of their lines; a dark spectrum stays dark. The unit helpers convert every number, quantity, list (mixed units) or array to the value the units mean, give bare numbers the documented units, and refuse what cannot be converted. Quantities come back from saving as they were.",
     ["inputs", "histories"], "operation histories x key/value kinds x units; all helpers x argument kinds x units",
     "tests do a handful of additions with one unit conversion",
     [S + "utils/lut.py", S + "utils/units.py", S + "utils/listtools.py", S + "sources/emspectrum.py", S + "patch/pint.py", S + "patch/jsonpickle.py", S + "utils/instance.py"],
     [("tables", S + "utils/lut.py"), ("quantities", S + "utils/units.py"), ("spectra", S + "sources/emspectrum.py")],
     "Reference model: a dictionary of keys and values in base units with explicit conversion factors, numpy interpolation on it; checked after every operation together with all tables made before.",
     "Exploration. Keys that only differ by rounding of a unit conversion are different keys; linear and previous-value tables; spectra with lines in energy and wavelength are not added to each other.", ["tables, lookups, magnitudes, units, exceptions"], "reference-model runtime monitoring of operation histories")

prop("C32", "SPEC files, scan commands and image headers are read as the scans they describe",
     "Every scan command (zapimage in both orders, puzzle, mesh, ascan, zapline, zapenergy) with numbers in any spelling is parsed to exactly its motors, limits, numbers of points and exposure time, anything else is unknown; the pixel centers, ranges, pixel and scan sizes derived from it agree. Image headers give the axes of the scan (name, unit, position of every pixel) from the command, the motor fields, both or none, shifted by the compensation motors in their own units. SPEC files give the data columns, labels, motors, command, data location, dimensions and image list of any scan, case-insensitively, and group XANES repeats with their sums under every keep/skip/range option, also when repeats are missing.",
     ["inputs", "configurations"], "scan kinds x number spellings x header contents; files with any mixture of scans",
     "tests parse eight fixed commands and never read a SPEC file",
     [S + "io/spec.py", S + "process/axis.py", S + "io/xiaedf.py"],
     [("commands, headers, files", S + "io/spec.py")],
     "Reference oracle: the check writes the command, header or file from known values and computes positions with explicit formulas; XANES groups from the known blocks of scans.",
     "Exploration. Motor names of letters (digits only in puzzle); sub-map commands of an existing map are not claimed (unused); SUM2 scans follow the SUM they replace.", ["parsed commands, axes, data columns, groups"], "reference-model runtime monitoring of parsers with generated files")

prop("C30", "Job lists, scan jobs and inherited parameters do what was asked",
     "Every job list executes exactly the jobs selected on the command line (-j, -a, -b; all by default), in that order with their own arguments, after all of them are defined; -n and -l only report; numbers outside the list are refused without executing anything else. Jobs made from sample, dataset and scan numbers (fluoXAS, multi, single, manual selection, static full-field), executed at once or from a list in any order and with the same parameters for all, process exactly the scans that were asked for, leave the parameters of the caller alone, put each dataset in its own entry of the file of its sample, and export exactly the detector images of the result, named after detector, signal and energy. In every tree of parameters, after any history of setting, updating, deleting and inserting, moving or removing nodes, each node has the values of its closest ancestor that defines them; changes are reported for the node and its descendants only.",
     ["inputs", "configurations", "histories"], "job lists x command lines; datasets x job kinds x execution modes; histories of tree operations",
     "no test covers job lists, job makers or exports; parameter tests only insert nodes",
     [S + "pipelines/batch.py", S + "pipelines/fluoxasjobs.py", S + "pipelines/ffxasjobs.py", S + "pipelines/parameters.py", S + "pipelines/fluoxas.py", S + "pipelines/run.py"],
     [("job lists", S + "pipelines/batch.py"), ("XRF jobs and export", S + "pipelines/fluoxasjobs.py"), ("full-field jobs", S + "pipelines/ffxasjobs.py"), ("inheritance", S + "pipelines/parameters.py")],
     "Trace oracle over recorded calls for job lists; for jobs, real EDF files are written, the jobs run and the result files and exported images are read with h5py and an own EDF reader; for parameters a chain of dictionaries as reference model, all nodes compared after every operation.",
     "Exploration. Parameters whose value is itself a mapping (SubNode) never worked upstream (abstract class) and are not claimed.", ["executed calls, output, result files, exported images, values of nodes"], "runtime monitoring: trace oracle and reference model")

prop("C33", "Caches, orderings, lazy functions and other shared helpers keep their contract",
     "In every nesting of cache contexts - any order, arguments, failures of the generator or of the body - a cached object is generated once by the outermost context, shared inside it and forgotten after it, per instance. Comparison, sorting, hashing and detector group names are consistent with each other; classes are found by name and alias. Every composition of lazy functions evaluates to what the same expression of their values gives; arrays, quantities and scalars go to arrays and come back as they were; list helpers, number bases, regions of interest (clipped and spliced), truncated normal distributions, outlier detection and durations (also of several days) give what they are defined to be for all inputs. Log messages of a program go where its options say, each exactly once at the right level; executed programs return their exit code and exactly the output that was asked for.",
     ["inputs", "histories", "configurations"], "nestings x failures; expressions; lists, numbers, shapes, times; program options",
     "tests check one or two values of some helpers and none of their failures",
     [S + "utils/cache.py", S + "utils/comparable.py", S + "utils/hashable.py", S + "utils/classfactory.py", S + "utils/listtools.py", S + "utils/integerbase.py", S + "utils/roi.py", S + "utils/arraytricks.py", S + "utils/instance.py", S + "utils/timing.py", S + "utils/cli.py", S + "utils/subprocess.py", S + "utils/dict.py", S + "utils/Enum.py", S + "math/lazy.py", S + "math/distributions.py", S + "math/statistics.py", S + "process/nxresult.py"],
     [("caches", S + "utils/cache.py"), ("orderings", S + "utils/comparable.py"), ("lazy functions", S + "math/lazy.py"), ("conversions", S + "utils/instance.py"), ("logging", S + "utils/cli.py")],
     "Reference oracle: python's own semantics on plain values (lists, comparisons, expressions), counters of every generation of a cached object, scipy's truncated normal, real child processes whose output streams and log files are read.",
     "Exploration. Rolling with negative numbers and regions outside the array are not claimed.", ["generated objects, values, orders, streams"], "reference-model runtime monitoring of operation histories and child processes")

prop("C36", "Measurements converted to NeXus or prepared for fitting are the measurement",
     "Every XIA map converted to a NeXus entry (directly or as a task, in memory or in pieces, with any shape, detectors, counters, statistics, header contents and include/exclude rules) has exactly the spectra of every detector, the selected counters under their own names, the beam monitors that were asked for, live and elapsed times from the statistics, and energy, exposure time and scan positions from the header (not-a-number when unknown); the raw files and other entries are left alone. Every preparation of Bliss spectra gives, per detector or summed, exactly the measured counts scaled by preset time over the live time of the same detector and pixel (or the raw counts when not corrected) with the requested counters next to them, leaves the raw data unchanged and is not repeated. A list of images is a grid with their values, labels and positions.",
     ["inputs", "configurations"], "map shapes x detectors x counters x headers x options; detectors x dead times x modes; image lists",
     "one map is converted by the tests, only group names are compared; preparation and image grids are not tested",
     [S + "io/xiaedftonexus.py", S + "process/nxxiaedf.py", S + "process/nxblissmcapre.py", S + "process/edfregulargrid.py", S + "math/slicing.py", S + "io/xiaedf.py"],
     [("conversion", S + "io/xiaedftonexus.py"), ("preparation", S + "process/nxblissmcapre.py"), ("images", S + "process/edfregulargrid.py")],
     "Reference oracle: raw files are written byte by byte by the check, the result is read with h5py and compared with the arrays and header values they were made from, including a map larger than the copy buffer.",
     "Exploration. ID21 scanning microscope as instrument; each preparation has its own output entry or suffix.", ["datasets, attributes and links of the converted file, raw files before and after"], "reference-model runtime monitoring of file conversion")

prop("C37", "A scene draws every value at its coordinate with its intensity",
     "After any history of registering images, points, lines and polygons in one or more scenes, transposing, flipping (with or without keeping a direction), choosing the direction of an axis, setting or resetting the range or origin of the coordinates, replacing data or coordinates, selecting channels and scaling intensities (explicit limits, relative to an item or to all items, linear, log, power or symlog), updating the view draws each pixel of each image at the transformed coordinate of its data, in the units of the scene, with the value normalized between the limits (all items' range by default) in the right color channel, and each point, line and polygon at its transformed coordinates; the axes span all items with half a pixel around images, in the chosen direction, with the name and unit of the data axis. The data of the items is never changed.",
     ["histories", "inputs"], "items x units x histories of scene operations x one or two scenes",
     "the only scene test returns at its first line ('this test fails due to units'); what is drawn is never looked at",
     [S + "visualization/scene.py", S + "process/scenevis.py"],
     [("coordinates", S + "visualization/scene.py"), ("axes and intensities", S + "process/scenevis.py")],
     "Reference oracle: the check keeps its own affine coordinates, direction, transposition, channels and limits per scene and after every update reads the drawn matplotlib objects back (pixel centers from extent and array, norm, line, polygon, axis limits, labels).",
     "Exploration. Switching an image between one and three channels after it was drawn, lower limits above the upper limit, color bars, scale bars, text positions and aspect ratios are not claimed.", ["drawn images, lines, patches, axis limits and labels"], "reference-model runtime monitoring of drawing")

prop("C38", "Spectra, tables, reports and spreadsheets on disk are what was stored",
     "Reading a saved MCA spectrum gives all its counts, channels, energies and calibration, for any number of channels; reading a text table gives its column names and all its numbers, whatever text precedes it, the separators and line ends, and refuses files without table; reports contain exactly the lines written, in order, indented as asked, new or appended, also when interrupted. A spreadsheet holds, after any history of setting values, rows and columns (new or existing) and adding row, column and cell formulae, the values that follow from the inputs: formulae are evaluated again after every change, row formulae last with row priority and column formulae last with column priority, cell formulae after both, cell formulae are removed when their whole row or column is set, and a formula of itself is refused. A saved workbook has the same values and labels in every sheet, and its conditional formats select exactly the cells that fulfil the criterion. Color codes give their red, green and blue values.",
     ["inputs", "histories"], "spectrum lengths x calibrations; table layouts; report sessions; spreadsheet histories x priorities x criteria",
     "the spreadsheet tests check one history of each priority; spectra, tables, reports and formats are not tested",
     [S + "io/mca.py", S + "io/ascii.py", S + "io/excel.py", S + "visualization/colormap.py"],
     [("spectra", S + "io/mca.py"), ("tables and reports", S + "io/ascii.py"), ("spreadsheets", S + "io/excel.py")],
     "Reference oracle: stored values against values read back, a cell-by-cell model of the spreadsheet after every operation, workbooks opened with another library to evaluate the criteria.",
     "Exploration. Formulae that depend on cells of other formulae of the same kind, or on cell formulae, and numbers without digits on both sides of the decimal point in text tables are not claimed.", ["files read back with the library and with openpyxl"], "reference-model runtime monitoring, history-based oracle")
