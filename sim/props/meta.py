"""Sizes, levels and wording of the checks (read by the engine without importing the code under test)."""
BASE_ASSUME = [
    "the simulated disk is a tmpfs directory; every storage call a simulated process makes through libc on it passes the seam",
    "numerical libraries (numpy, scipy, astropy, finufft) run single-threaded and are trusted",
]
PROPS = {
    "C01": dict(n={"quick": 64, "thorough": 800}, level="exploration", assumptions=BASE_ASSUME,
                rule="a scenario is one cube, CLEAN settings and 2-3 pooled runs with their own worker count, chunking, start "
                     "method and completion order plus single-pixel runs; non-trivial: at least one pixel was cleaned and the "
                     "scheduler took pool decisions; distinct by event-log hash"),
    "C02": dict(n={"quick": 96, "thorough": 1200}, level="exploration", assumptions=BASE_ASSUME,
                rule="a scenario is one Stokes I cube, fit settings and mask and 2-3 pooled runs with their own worker count, chunking, "
                     "start method, verbosity, interface and completion order plus a fit of every pixel alone; non-trivial: more than one "
                     "pixel fitted by pool tasks; distinct by event-log hash"),
    "C03": dict(n={"quick": 120, "thorough": 2500}, level="exploration", assumptions=BASE_ASSUME,
                rule="a scenario is one set of model maps (drawn or fitted, up to several task chunks), a new reference frequency and 1-3 "
                     "pooled rescalings with their own worker count, start method, interface and completion order, plus single pixels "
                     "and a two-step chain; non-trivial: a pixel was rescaled and the scheduler took pool decisions; distinct by event-log hash"),
    "C04": dict(n={"quick": 120, "thorough": 2500}, level="exploration",
                assumptions=BASE_ASSUME + ["what the standard pools do when a worker dies or cannot be started is modelled after CPython 3.12 (checked against the real ones)"],
                rule="a scenario is one parallel command (or library call with the caller's pool) and 5 (thorough: 12) runs of it with one or "
                     "two worker faults at drawn tasks or starts and a drawn schedule, each followed by an undisturbed run; non-trivial: a "
                     "fault fired; distinct by event-log hash"),
    "C05": dict(n={"quick": 120, "thorough": 2000}, level="exploration", assumptions=BASE_ASSUME,
                rule="a scenario is one image (2-4 dimensions, 4 number types) and several splits and reassemblies with their own chunk "
                     "size, memory modes, names, directory order, short transfers and an earlier killed attempt; non-trivial: at least "
                     "one round trip; distinct by event-log hash"),
    "C06": dict(n={"quick": 96, "thorough": 2000}, level="exploration", assumptions=BASE_ASSUME,
                rule="a scenario is one cube, one chunk size and one history (order or interleaving) of the chunked pipeline compared with "
                     "the whole-cube run; non-trivial: compared; distinct by event-log hash"),
    "C07": dict(n={"quick": 200, "thorough": 4000}, level="exploration", assumptions=BASE_ASSUME,
                rule="a scenario is one image and several chunk sets (complete, lost, surplus, cut short, left by killed or repeated splits) "
                     "handed to the reassembly with drawn options and existing output; non-trivial: at least one refusal; distinct by "
                     "event-log hash"),
    "C08": dict(n={"quick": 120, "thorough": 1500}, level="exploration", assumptions=BASE_ASSUME,
                rule="a scenario is one tool configuration and several runs of it with one or two storage faults at drawn positions; "
                     "non-trivial: at least one fault fired; distinct by event-log hash"),
    "C09": dict(n={"quick": 120, "thorough": 1500}, level="exploration", assumptions=BASE_ASSUME,
                rule="a scenario is one tool configuration and several histories of one to three crashes (kill, torn write) of it at "
                     "drawn storage operations followed by a run without faults; non-trivial: at least one crash happened; distinct "
                     "by event-log hash"),
    "C10": dict(n={"quick": 144, "thorough": 1500}, level="exploration", assumptions=BASE_ASSUME,
                rule="a scenario is one tool configuration on a disk with other files, one undisturbed run and several runs with a "
                     "crash or storage fault; non-trivial: a run was interrupted; distinct by event-log hash"),
    "C11": dict(n={"quick": 120, "thorough": 1500}, level="exploration", assumptions=BASE_ASSUME,
                rule="a scenario is one tool configuration run once and again in several altered environments (clock, clock speed and "
                     "jumps, entropy, directory order, verbosity, working directory, absolute paths, pool scheduling, hash seed, "
                     "neighbouring files, locale); non-trivial: at least one altered run; distinct by event-log hash"),
    "C12": dict(n={"quick": 96, "thorough": 1500}, level="exploration", assumptions=BASE_ASSUME,
                rule="a scenario is one pair of cubes (axis layout, flags, frequency order, weights, depth grid, Stokes I model, names) taken "
                     "through synthesis, cleaning and peak fitting, every hand-over by a drawn member of the set, both output layouts, short "
                     "transfers; non-trivial: at least one pixel with data; distinct by event-log hash"),
    "C13": dict(n={"quick": 64, "thorough": 1200}, level="exploration", assumptions=BASE_ASSUME,
                rule="a scenario is one spectrum (text with or without Stokes I, in several notations, or a pixel of FITS cubes) and a history of "
                     "one to three (thorough: five) syntheses, each followed by one or two cleanings, with drawn options, paths and short "
                     "transfers, compared step by step with the library called in memory; non-trivial: a step was compared; distinct by event-log hash"),
    "C14": dict(n={"quick": 320, "thorough": 3000}, level="exploration",
                assumptions=BASE_ASSUME + ["threads are preempted between lines of the repository's code, not inside numerical libraries"],
                rule="a scenario is one to four threads of one to three library calls each on shared data, run under two (thorough: four) "
                     "schedules and each call alone in a fresh process; non-trivial: calls were compared and, with several threads, preempted "
                     "at least once; distinct by event-log hash"),
    "C15": dict(n={"quick": 200, "thorough": 4000}, level="exploration", assumptions=BASE_ASSUME,
                rule="a scenario is one tool configuration and a history of 3-6 (thorough: 6-14) runs of it with drawn existing outputs "
                     "(junk, an earlier product, a cut one), with or without the overwrite option, under kills and storage faults; "
                     "non-trivial: at least one run met an existing output without the option; distinct by event-log hash"),
    "C16": dict(n={"quick": 120, "thorough": 1500}, level="exploration", assumptions=BASE_ASSUME,
                rule="a scenario is two or three tool configurations with disjoint products run together under several drawn schedules "
                     "(preemption at storage operations), some with a crash or fault in one of them; non-trivial: at least one "
                     "concurrent run; distinct by event-log hash"),
    "C17": dict(n={"quick": 64, "thorough": 1200}, level="exploration",
                assumptions=BASE_ASSUME + ["the stand-in sampler checkpoints and resumes as bilby's dynesty wrapper does"],
                rule="a scenario is one to three (thorough: five) QU-fits in one directory with drawn data, model (built-in or the user's own), posterior "
                     "(angles at the wrap, in halves, fixed parameters), sample order, processes, earlier results, checkpoints and kills; non-trivial: a "
                     "finished fit was judged; distinct by event-log hash"),
    "C18": dict(n={"quick": 160, "thorough": 2000}, level="exploration", assumptions=BASE_ASSUME,
                rule="a scenario is one tool configuration and several ways of damaging one input (removed, empty, cut in header or data, "
                     "lines lost, a directory, open or read error); non-trivial: at least one refusal; distinct by event-log hash"),
    "C19": dict(n={"quick": 200, "thorough": 4000}, level="exploration", assumptions=BASE_ASSUME,
                rule="a scenario is one image (2-4 dimensions, 6 number formats, rotated or not) and several chains of one to three cutouts "
                     "with drawn limits (inside, overhanging, -1, centre form), short transfers and an earlier killed attempt; non-trivial: "
                     "at least one cutout; distinct by event-log hash"),
    "C20": dict(n={"quick": 120, "thorough": 1500}, level="exploration", assumptions=BASE_ASSUME,
                rule="a scenario is a history of one to three (thorough: six) earlier commands in the directory, finished, failed or "
                     "killed, then one configuration compared with a fresh directory; non-trivial: compared; distinct by event-log hash"),
    "C21": dict(n={"quick": 144, "thorough": 1500}, level="exploration",
                assumptions=BASE_ASSUME + ["the exception strikes between lines of the repository's own code, in the process that runs the command"],
                rule="a scenario is one tool configuration, its undisturbed run and 13 (thorough: 40) runs of it into which Ctrl-C or a failed "
                     "allocation strikes at a drawn line (uniform over executed lines, over distinct ones, or on entering a "
                     "try statement), some followed by an undisturbed "
                     "run; non-trivial: a run was struck and reported it; distinct by event-log hash"),
    "C22": dict(n={"quick": 144, "thorough": 2000}, level="exploration", assumptions=BASE_ASSUME,
                rule="a scenario is one chain of two to four commands and 8 (thorough: 24) histories in which one of them is killed at a drawn "
                     "storage operation, the others run, and the last one's result is judged; non-trivial: a run was refused; distinct by "
                     "event-log hash"),
}
