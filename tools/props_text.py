"""The properties, in the words of properties.jsonl, and how each check decides them (MANIFEST.json is generated from here)."""

ALLTOOLS = ["RMtools_3D/do_RMsynth_3D.py", "RMtools_3D/do_RMclean_3D.py", "RMtools_3D/do_fitIcube.py",
            "RMtools_3D/rescale_I_model_3D.py", "RMtools_3D/RMpeakfit_3D.py", "RMtools_3D/create_chunks.py",
            "RMtools_3D/assemble_chunks.py", "RMtools_3D/extract_region.py", "RMtools_3D/make_freq_file.py",
            "RMtools_3D/mk_test_cube_data.py", "RMtools_1D/do_RMsynth_1D.py", "RMtools_1D/do_RMclean_1D.py",
            "RMtools_1D/do_RMsynth_1D_fromFITS.py", "RMtools_1D/calculate_RMSF.py", "RMtools_1D/rmtools_bwdepol.py",
            "RMtools_1D/rmtools_bwpredict.py", "RMtools_1D/mk_test_ascii_data.py"]
TECH = "deterministic simulation with fault injection"


def P(id, title, statement, over, text, why, files, mech, level_note=None, tech=None, observe=None, state=None, na=None, decide=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                level_note=level_note, tech=tech, observe=observe or [], state=state or [], na=na, decide=decide)


PROPS = [
    P("C01", "Parallel RM-CLEAN gives the serial answer",
      "Cleaning a cube with any number of worker processes, any chunk size, any kind of worker pool (including a pool handed in by a "
      "library caller) and any completion order gives, pixel for pixel, the cleaned spectra, component spectra, residuals and iteration "
      "counts of the serial run. Every pixel's result depends only on its own dirty spectrum and RMSF.",
      ["schedules", "inputs", "configurations"], "all completion orders of the pool's tasks, worker counts, chunk sizes, start methods, cubes",
      "The tests clean one cube serially and never compare with a pooled run; no test can choose the completion order.",
      ["RMutils/util_RM.py", "RMtools_3D/do_RMclean_3D.py"],
      [("RMcleaner.cleanloop mapped over pixels, results gathered in submission order", "RMutils/util_RM.py"),
       ("schwimmbad pool selection", "RMtools_3D/do_RMclean_3D.py")],
      decide="real rmclean3d / run_rmclean in a simulated process; process pools are the deterministic stand-in of sim/pools.py (real "
             "forked or freshly started workers, one running at a time, the seeded scheduler picks every start and completion); oracle: the "
             "serial run, plus each of some pixels cleaned on its own"),
    P("C02", "Stokes I cube fits do not depend on workers, order or verbosity",
      "Fitting a Stokes I cube gives the same model cube, coefficient, error, covariance, reference frequency and mask maps and noise "
      "list for every number of workers, chunk size, verbosity setting and completion order of the workers. Each fitted pixel equals the "
      "fit of that pixel's spectrum alone, and the model cube is the one its coefficient maps describe.",
      ["schedules", "inputs", "configurations"], "all worker counts, chunk sizes, completion orders, verbosity, masks, cubes",
      "One test compares verbose and quiet runs of one cube with real, uncontrolled scheduling and one worker count.",
      ["RMtools_3D/do_fitIcube.py", "RMutils/util_misc.py"],
      [("pool.map / process_map over spectra and reassembly by pixel index", "RMtools_3D/do_fitIcube.py")],
      decide="real rmtools_fitIcube under the pool seam with drawn workers, chunk sizes, verbosity, start methods and completion orders; "
             "oracles: a one-worker run, per-pixel calls of the 1D fit, and the model evaluated from the coefficient maps"),
    P("C03", "Parallel rescaling of I models gives the serial answer",
      "Rescaling the Stokes I model maps to new reference frequencies gives the same maps for every number of workers and completion "
      "order, each pixel equal to the rescaling of its own model alone. The rescaled model describes the same spectrum as the original "
      "one, its errors are the first-order propagation of the covariance of the original coefficients, and rescaling to the present "
      "reference frequency changes nothing.",
      ["schedules", "inputs", "configurations", "histories"], "worker counts, completion orders, target frequencies, cubes, chains of rescalings",
      "The test only checks that the command exits with 0.",
      ["RMtools_3D/rescale_I_model_3D.py", "RMutils/util_misc.py"],
      [("pool.map over pixels with chunksize, index arithmetic on return", "RMtools_3D/rescale_I_model_3D.py")],
      decide="real rmtools_3DIrescale under the pool seam; oracles: one-worker run, per-pixel library call, the spectrum evaluated from the "
             "old and the new coefficients, the covariance propagated with the analytic derivatives, a chain of two rescalings"),
    P("C04", "A lost worker never becomes a result",
      "If a worker process of a parallel command raises, is killed, or cannot be started, the command does not wait for ever, and it either "
      "ends with a non-zero exit status or delivers exactly the products of an undisturbed run. Running it again without the disturbance "
      "gives the undisturbed products.",
      ["schedules", "fault_sequences", "crash_points"], "worker faults at any task, any worker, any completion order",
      "No test disturbs a worker; which task a worker dies in is not under a test's control.",
      ["RMtools_3D/do_RMclean_3D.py", "RMtools_3D/do_fitIcube.py", "RMtools_3D/rescale_I_model_3D.py", "RMutils/util_RM.py"],
      [("pool.map/imap propagate task exceptions", "RMutils/util_RM.py"), ("executor reports a broken pool", "RMtools_3D/do_fitIcube.py")],
      decide="worker faults (exception, memory error, kill, lost start) injected by the pool seam at drawn tasks; a hang is recognised by the "
             "scheduler (no runnable task); oracle: undisturbed run"),
    P("C05", "Splitting and reassembling an image is lossless",
      "Splitting an image of two to four dimensions into chunks of any size and reassembling them, in either memory mode and whatever order "
      "the directory is listed in, gives back every value and the header of the original image. The chunks together hold each pixel's "
      "spectrum exactly once, in all the chunk sizes that divide the image or not.",
      ["inputs", "configurations", "schedules", "crash_points"], "image shapes and types, chunk sizes, memory modes, listing orders, interruptions",
      "One cube, one chunk size, and only the existence of files is tested.",
      ["RMtools_3D/create_chunks.py", "RMtools_3D/assemble_chunks.py"],
      [("pixel numbering x-major with y fastest in both tools", "RMtools_3D/create_chunks.py"), ("sorted glob of zero-padded chunk names", "RMtools_3D/assemble_chunks.py")],
      decide="real tools in simulated processes; directory order, kill and short writes come from the simulator; oracle: the original array and header"),
    P("C06", "Processing in chunks equals processing the whole cube",
      "Splitting Stokes Q and U cubes, running RM synthesis, RM-CLEAN and peak fitting on every chunk, in any order and also at the same "
      "time, and reassembling the products gives the products of the same commands run on the whole cubes. This is claimed for cubes in which "
      "a channel that is blank throughout one chunk is blank throughout the image, since the reference wavelength is that of the channels "
      "present in a file.",
      ["inputs", "configurations", "schedules", "histories"], "chunk sizes (including a last chunk of one pixel), processing orders, interleavings",
      "No test runs the chunked pipeline.",
      ["RMtools_3D/create_chunks.py", "RMtools_3D/assemble_chunks.py", "RMtools_3D/do_RMsynth_3D.py", "RMtools_3D/do_RMclean_3D.py", "RMtools_3D/RMpeakfit_3D.py"],
      [("per-pixel independence of the 3D tools", "RMutils/util_RM.py"), ("OLDXDIM/OLDYDIM carried through headers", "RMtools_3D/create_chunks.py")],
      decide="the whole chunked pipeline is run in one simulated world in drawn orders and interleavings; oracle: the whole-cube run"),
    P("C07", "Reassembly refuses an incomplete set of chunks",
      "If a chunk is missing, surplus, cut short, out of place, or belongs to another split of the image, reassembly ends with a non-zero exit "
      "status instead of delivering an image, and an existing output file keeps its bytes, even with the overwrite option.",
      ["inputs", "fault_sequences", "crash_points", "histories"], "sets of chunks after loss, crash of the splitting, leftovers of another split, mix-ups",
      "Never tested.", ["RMtools_3D/assemble_chunks.py"],
      [("chunk count compared with the header's expectation", "RMtools_3D/assemble_chunks.py")],
      decide="chunk sets damaged by the simulator (loss, kill of the splitter, truncation, leftovers); oracle: exit status and bytes on the disk"),
    P("C08", "Exit status 0 means every product is complete and right",
      "Whatever the storage does while a command runs (full disk, write, read, open or close errors, data lost at close, short reads and "
      "writes, out of memory for mappings), if the command exits with status 0, then all its products are on the disk, complete, with the "
      "content of an undisturbed run. No storage error makes a command wait for ever.",
      ["fault_sequences", "inputs", "configurations"], "one or two storage faults at any operation of any command",
      "The tests run on a healthy disk only.", ALLTOOLS,
      [("exceptions reach the top level", "all tools"), ("files closed explicitly", "RMtools_1D/do_RMsynth_1D.py")],
      decide="faults injected at libc calls by the preload seam, positions drawn relative to a reference run; oracle: the reference run's products"),
    P("C09", "A killed command can be run again",
      "After a command was killed at any point, any number of times, running it again (with its overwrite option where it has one) completes "
      "and leaves the products of an undisturbed run.",
      ["crash_points", "histories"], "one to three kills at any storage operation, torn writes included",
      "No test kills a command.", ALLTOOLS,
      [("products are rewritten from scratch", "all tools"), ("makedirs tolerates existing directories", "RMtools_3D/RMpeakfit_3D.py")],
      decide="kills and torn writes at drawn operations, then a run without faults; oracle: reference run"),
    P("C10", "A command touches only its own products",
      "A successful command leaves behind exactly its documented product files and changes nothing else; its inputs and all other files in "
      "and around the directory keep their bytes. That also holds for everything but its products when it fails or is killed at any point.",
      ["crash_points", "fault_sequences", "inputs", "configurations"], "kill or storage fault at any operation of any command, any neighbouring files",
      "Tests look for product files only, after success.", ALLTOOLS,
      [("inputs opened read-only or copied on write", "all tools")],
      decide="the simulated disk before and after is compared, and each mutating operation is checked against a model of the product names"),
    P("C11", "Products depend on inputs and options only",
      "The same command on the same input files gives the same products whatever the clock shows or does, whatever the entropy source, hash "
      "seed, directory order, locale, working directory, spelling of paths, neighbouring files, pool scheduling and verbosity are. Random "
      "test-data generators excepted from entropy.",
      ["schedules", "configurations", "inputs"], "environments of a run",
      "Tests run once in one environment.", ALLTOOLS,
      [("no use of time or global randomness in products", "all tools")],
      decide="clock, entropy, directory order, hash seed, schedules are the simulator's; oracle: byte or value equality with a reference run"),
    P("C12", "The 3D stages hand cubes over consistently",
      "For every axis layout of the input cubes (spectral axis before or after the image axes, degenerate axes), each pixel's dirty and cleaned Faraday spectrum and RMSF in the 3D products equals the one "
      "obtained from that pixel's spectrum with the 1D method, its Faraday depth axis is the one in the product headers, and the next stage "
      "reads the product of the previous one accordingly. Splitting Stokes into files or extensions makes no difference, the maps of "
      "peak values are those of the spectra, the fitted peak maps (with or without Stokes I cube, noise list and weighting) are those the 1D "
      "method gives for each spectrum, and every map keeps the sky coordinates of the input image.",
      ["inputs", "configurations", "histories"], "axis layouts, output layouts, chains of stages, storage with short reads and writes",
      "One layout and one cube; values are compared for a single pixel.",
      ["RMtools_3D/do_RMsynth_3D.py", "RMtools_3D/do_RMclean_3D.py", "RMtools_3D/RMpeakfit_3D.py", "RMutils/util_RM.py"],
      [("header axis bookkeeping in writefits / read_FDF_cubes", "RMtools_3D/do_RMclean_3D.py")],
      decide="multi-stage histories on the simulated disk with short transfers; oracle: the 1D library on each pixel and the transform written out"),
    P("C13", "1D stages via files equal the in-memory chain",
      "Running RM synthesis and RM-CLEAN on a spectrum as separate commands that hand over files gives the results of calling the library "
      "functions one after the other in memory, and the files say the same as each other: the text and JSON summaries agree, and the peak "
      "depth, amplitude, noise, signal-to-noise, angles and their errors in a summary follow from each other and from the spectrum beside it.",
      ["inputs", "configurations", "histories"], "spectra with and without Stokes I, options, storage with short reads and writes",
      "Tests check a few numbers of one spectrum.",
      ["RMtools_1D/do_RMsynth_1D.py", "RMtools_1D/do_RMclean_1D.py", "RMutils/util_RM.py"],
      [("saveOutput / readFiles pairs", "RMtools_1D/do_RMclean_1D.py")],
      decide="command histories on the simulated disk against the in-memory chain"),
    P("C14", "Library calls do not interfere and keep their arguments",
      "Library calls for 1D and 3D processing made from several threads at once return what the same calls return alone, whatever the "
      "interleaving, and no call changes its input arrays, what a later call returns, or the state of the calling process (floating point "
      "error settings, random number generators, working directory, environment, signal handlers).",
      ["schedules", "histories", "inputs"], "interleavings of calls in threads, sequences of calls",
      "Tests make single calls in one thread.",
      ["RMutils/util_RM.py", "RMutils/util_misc.py", "RMtools_1D/do_RMsynth_1D.py", "RMtools_1D/do_RMclean_1D.py"],
      [("no module-level state", "RMutils/util_RM.py")],
      decide="library calls in cooperative threads switched at traced lines by the seeded scheduler; oracle: calls alone"),
    P("C15", "Existing files are replaced only on request",
      "Commands with an overwrite option (cutting out a region, reassembling chunks, rescaling I models) leave existing output files "
      "byte-identical and exit with a non-zero status unless the option is given; with the option they replace them. This holds also when "
      "only some of the outputs exist and when the command is killed or hit by a storage error.",
      ["configurations", "crash_points", "fault_sequences", "histories"], "existing outputs, options, kills and faults at any operation",
      "Never tested.", ["RMtools_3D/extract_region.py", "RMtools_3D/assemble_chunks.py", "RMtools_3D/rescale_I_model_3D.py"],
      [("overwrite flag passed to the FITS writer", "RMtools_3D/extract_region.py")],
      decide="disks with drawn existing outputs, runs with and without the option under kills and faults; oracle: the bytes before"),
    P("C16", "Concurrent commands with different outputs do not disturb each other",
      "Commands that run at the same time, in the same or different directories, and whose outputs differ deliver exactly what they deliver "
      "alone, whatever the interleaving of their storage operations, also when they share inputs or create the same new directory, and also "
      "when one of them fails or is killed.",
      ["schedules", "crash_points", "fault_sequences"], "interleavings of two or three commands at storage-operation granularity",
      "Tests run commands one after the other.", ALLTOOLS,
      [("makedirs with exist_ok", "RMtools_3D/RMpeakfit_3D.py"), ("no shared scratch file names", "all tools")],
      decide="several simulated processes in lock-step; the seeded scheduler preempts at storage operations; oracle: each command alone"),
    P("C17", "QU-fit reports what the sampler returned",
      "Whatever posterior the sampler returns and in whatever order or number of processes it works, the reported parameter values and "
      "errors are those of the posterior samples (angles wrapped consistently into [0, 180) degrees), the reported fit statistics follow from "
      "the model at those values, and all output files say the same. An earlier run in the same directory (finished or killed, with other data, "
      "model or settings) does not show in the report.",
      ["inputs", "schedules", "configurations"], "posteriors, including angles at the wrap-around, sampler choices, repeated runs",
      "The tests exercise real samplers for a few cases, most are not run to the end here.",
      ["RMtools_1D/do_QUfit_1D_mnest.py"], [("parse posterior, wrap angles, write results", "RMtools_1D/do_QUfit_1D_mnest.py")],
      decide="the sampler is a seam (stub returning a drawn posterior), storage under the simulator; oracle: statistics recomputed from the posterior"),
    P("C18", "Missing, damaged or unreadable inputs are refused",
      "If an input file is missing, empty, cut short, or cannot be opened or read, the command exits with a non-zero status and does not "
      "deliver products; when the input is found damaged before anything is written, products of an earlier run keep their bytes. (Text "
      "files cut at a line end count as damaged where another input tells how many lines are needed.)",
      ["inputs", "fault_sequences", "configurations"], "every input of every command, every way of damaging it, any position",
      "Tests only give good inputs.", ALLTOOLS,
      [("existence checks and FITS size checks", "all tools"), ("sys.exit(1) on giving up", "all tools")],
      decide="inputs damaged on the simulated disk or by injected open/read errors; oracle: exit status and bytes before"),
    P("C19", "Cutouts hold exactly the requested pixels",
      "A cutout of a two- to four-dimensional image holds exactly the requested pixels and channels, limits included and cut off at the image "
      "edges, and its world coordinates give every pixel the position and frequency it had in the original, in the presence of short reads "
      "and writes. A cutout of a cutout equals the cutout made at once.",
      ["inputs", "configurations", "histories", "fault_sequences"], "boxes, channel limits, image layouts, chains of cutouts",
      "One cutout, only the exit status is tested.", ["RMtools_3D/extract_region.py"],
      [("CRPIX shifted by the lower limits", "RMtools_3D/extract_region.py")],
      decide="histories of cutouts on the simulated disk; oracle: array slicing and WCS evaluation"),
    P("C20", "Results do not depend on what earlier runs left behind",
      "A command run in a directory that holds the outputs of earlier runs, finished, failed or killed, with other options or other data, "
      "writes exactly the products it writes in a fresh directory. A command that reads a set of files from a directory does not pick up "
      "leftovers of another run as its own: it uses its own set or refuses.",
      ["histories", "crash_points", "configurations"], "sequences of commands in one directory with interruptions",
      "Tests start from a clean directory.", ALLTOOLS,
      [("products are rewritten from scratch", "all tools"), ("fit order read from the header", "RMtools_3D/rescale_I_model_3D.py")],
      decide="histories of commands with kills and faults, then the judged command; oracle: the same command in a fresh directory"),
    P("C21", "A command interrupted by Ctrl-C or out of memory says so",
      "When Ctrl-C or a failed allocation strikes anywhere in a command, the command ends, and either it reports failure with a non-zero exit "
      "status or its products are those of an undisturbed run. It never carries on with a default, a blank pixel or a fallback in place of "
      "what it was computing. Running it again afterwards (with its overwrite option where it has one) gives the undisturbed run's products.",
      ["crash_points", "fault_sequences", "configurations"], "an exception from outside at any executed line of any command",
      "No test interrupts a command or makes an allocation fail.", ALLTOOLS,
      [("broad exception handlers guard single pixels and fits only against bad data", "RMtools_3D/RMpeakfit_3D.py"),
       ("fallback of the Stokes I fit", "RMutils/util_misc.py")],
      decide="KeyboardInterrupt or MemoryError raised by a trace function at a drawn line of the code under test (drawn over all executed "
             "lines, over the distinct ones, or over the try statements and the first times each is entered); oracle: the undisturbed run's products"),
]

NUMERIC = "a pure function of its input: no schedule, clock, storage, fault or history is involved, so there is nothing for a simulator to decide (guide: answer not applicable)"
PROPS += [
    P("C22", "A killed command's leftovers are not taken for its products",
      "If a command is killed at any point of its run (also in the middle of a write) in a directory that holds no earlier products of it, a "
      "later command that reads its products (CLEAN, peak fitting, synthesis with a fitted Stokes I model, a noise or a frequency list, "
      "rescaling, reassembly, cutting, splitting) either ends with a non-zero exit status or delivers exactly what it delivers from the "
      "complete products. No unfinished image, cube, model or list is left under the name of the finished one in a form that a later "
      "command accepts.",
      ["crash_points", "histories", "configurations"], "every storage operation a command can be killed at, every chain of commands",
      "The tests run complete pipelines only.", ALLTOOLS,
      [("products written in one go, or under another name and then renamed", "RMtools_3D/assemble_chunks.py"),
       ("order in which the products are written", "RMtools_3D/do_fitIcube.py")],
      decide="chains of two to four commands; one of them is killed at a drawn storage operation (whole or torn write), the later ones run on "
             "what it left; oracle: the last command's exit status and its products in the undisturbed chain"),
    P("N01", "RM synthesis is the weighted Fourier sum it is defined as",
      "For every set of channels, weights, Faraday depths and reference wavelength, the dirty spectrum equals the weighted sum of the "
      "polarization times exp(-2i phi (lambda^2 - lambda0^2)) over the sum of weights, for direct and non-uniform-FFT evaluation.",
      ["inputs"], "all spectra and depth grids", "Tests use a few spectra.", ["RMutils/util_RM.py"], [("do_rmsynth_planes", "RMutils/util_RM.py")], na=NUMERIC),
    P("N02", "The RMSF has unit peak at zero and the three width estimates agree",
      "The RMSF is 1 at zero Faraday depth, Hermitian, and its fitted width agrees with the measured one within the fit error.",
      ["inputs"], "all channel sets and weights", "Tests use a few channel sets.", ["RMutils/util_RM.py"], [("get_rmsf_planes", "RMutils/util_RM.py")], na=NUMERIC),
    P("N03", "CLEAN conserves the spectrum",
      "The cleaned spectrum minus components convolved with the restoring beam equals the dirty spectrum minus components convolved with the "
      "RMSF, and the residual peak is below the cutoff unless the iteration limit was reached.",
      ["inputs"], "all spectra, RMSFs and settings", "Tests compare a few numbers.", ["RMutils/util_RM.py"], [("RMcleaner.cleanloop", "RMutils/util_RM.py")], na=NUMERIC),
    P("N04", "Fractional polarization scales out of the Stokes I model",
      "Multiplying I, Q and U by a constant changes neither fractional spectra nor Faraday depths and angles.",
      ["inputs"], "all spectra", "Never tested.", ["RMutils/util_misc.py"], [("create_frac_spectra", "RMutils/util_misc.py")], na=NUMERIC),
    P("N05", "Peak parameters and angles are measured correctly",
      "Peak depth, amplitude, angle, derotated angle and their errors follow from the spectrum at its peak, with angles in [0, 180).",
      ["inputs"], "all spectra", "Tests compare a few numbers.", ["RMutils/util_RM.py"], [("measure_FDF_parms", "RMutils/util_RM.py")], na=NUMERIC),
    P("N06", "Bandwidth depolarization tends to the ordinary transform for narrow channels",
      "With channel widths going to zero the bandwidth-depolarization-corrected spectrum tends to the ordinary one.",
      ["inputs"], "all channel sets", "Never tested.", ["RMtools_1D/rmtools_bwdepol.py"], [("adjoint theory kernels", "RMtools_1D/rmtools_bwdepol.py")], na=NUMERIC),
    P("N07", "Flagged channels carry no weight",
      "A channel that is not finite in Q or U influences neither the dirty spectrum nor the RMSF of that pixel, as if it had been left out.",
      ["inputs"], "all flag patterns", "Tests use no flags.", ["RMutils/util_RM.py"], [("weights zeroed where not finite", "RMutils/util_RM.py")], na=NUMERIC),
    P("N08", "Polynomial model fitting returns the least-squares solution",
      "The fitted Stokes I coefficients minimise the weighted sum of squares, and dynamic order selection takes the order of lowest AIC.",
      ["inputs"], "all spectra and orders", "Tests use one spectrum.", ["RMutils/util_misc.py", "RMutils/mpfit.py"], [("fit_StokesI_model", "RMutils/util_misc.py")], na=NUMERIC),
    P("N09", "Complexity metrics are invariant under a change of units",
      "sigma_add and second-moment complexity measures do not change when fluxes and errors are scaled together.",
      ["inputs"], "all spectra", "Never tested.", ["RMutils/util_RM.py"], [("measure_qu_complexity", "RMutils/util_RM.py")], na=NUMERIC),
]
