"""What each check runs, and what it assumes. Read by check.py and mkmanifest.py."""

COMPONENTS = {
    "real": "every source file of /repo/src that the default, MPI, JIT and Kokkos configurations compile: Apollo, Region, RegionContext, Dataset, timers (sync, CUDA, HIP), all policy models, model factory, parser, helpers, C API, Kokkos connector; the program's own exit path (static destructors); for JIT builds the real C++ compiler and dynamic loader, run on a private directory that stands for /tmp",
    "stub": "monotonic and wall clocks, std::random_device, environment, process ids and process ends, the file system (in memory), CUDA and HIP events, the MPI library, the application (generated operations), the Kokkos runtime (generated calls)",
}
COMMON_ASSUMPTIONS = [
    "the stubs behave like the real clocks, files, MPI library and device events; a rename is atomic and a killed process leaves exactly what its completed calls wrote",
    "sampling: the seeds of one run are a random sample of the generated space, not all of it",
    "one application thread per process, as the library has no locking of its own",
    "images are built with g++ -O1 -DNDEBUG from /repo's working tree; the OpenCV configuration is not covered",
]
SIM = "Plans (operations of the application, environment, restarts), schedules, latencies and faults are generated from the seed. "

INFO = {
    "C01": dict(variants=["def", "mpi"], rule=SIM + "A run is non-trivial if at least one recommendation was returned and compared with the region's declared policies."),
    "C02": dict(variants=["def", "mpi"], rule=SIM + "Every execution has features of its own, so that its measurement can be told apart. Non-trivial: at least one completed execution was found in the data."),
    "C03": dict(variants=["def", "mpi"], rule=SIM + "Every execution has features of its own. Non-trivial: at least one recorded metric was compared with the virtual time the execution took."),
    "C04": dict(variants=["def", "mpi"], rule=SIM + "Executions repeat features. Non-trivial: at least one features/policy pair was measured more than once."),
    "C05": dict(variants=["def", "mpi"], rule=SIM + "Non-trivial: a region with two or more policies explored (cyclically, or at random for longer than the starvation bound).", assumptions=["for the random explorer the starvation bound has a false-alarm probability below 1e-11 per window for a uniform choice"]),
    "C06": dict(variants=["def", "mpi"], rule=SIM + "Non-trivial: a tuned tree was asked for measured features where at least two policies were best somewhere."),
    "C07": dict(variants=["def", "mpi"], rule=SIM + "Each training is repeated on a fresh model in a reference world. Non-trivial: at least one model was trained again or after loading."),
    "C08": dict(variants=["def", "mpi"], rule=SIM + "Non-trivial: at least one automatic training was due."),
    "C09": dict(variants=["def", "mpi"], rule=SIM + "Non-trivial: a restart began with at least one saved measurement."),
    "C10": dict(variants=["def", "mpi"], rule=SIM + "Non-trivial: a loaded model's answers were compared with the stored one's."),
    "C11": dict(variants=["def", "mpi"], rule=SIM + "A process is killed at a seam call. Non-trivial: it was killed while, or after, saved state existed or was being saved."),
    "C12": dict(variants=["def", "mpi"], rule=SIM + "Saved files are cut or made unreadable. Non-trivial: the damaged file was needed by a region."),
    "C13": dict(variants=["def", "mpi"], rule=SIM + "The same plan runs on a healthy and on a failing disk. Non-trivial: at least one storage fault fired."),
    "C14": dict(variants=["mpi"], rule=SIM + "Non-trivial: a rank received measurements of another."),
    "C15": dict(variants=["mpi"], rule=SIM + "The same plan runs under three schedules. Non-trivial: a collective training with data took place."),
    "C16": dict(variants=["def", "mpi"], rule=SIM + "Several processes share a directory. Non-trivial: their file operations overlapped in time."),
    "C17": dict(variants=["def", "mpi"], rule=SIM + "Non-trivial: at least one trace record was compared."),
    "C18": dict(variants=["kk"], rule=SIM + "Non-trivial: a full round of combinations was completed while exploring, or a restarted run was compared with the stored model."),
    "C19": dict(variants=["def", "jit"], rule=SIM + "The same models answer with and without just-in-time compilation. Non-trivial: at least one compiled tree was asked.", assumptions=["the real compiler runs with /tmp mapped to a scratch directory, its result is cached by command and input; its output file appears as a linker makes it: old one removed, new one growing, then complete", "executions supply their metrics, so that compilation time does not change the data"]),
    "C20": dict(variants=["def", "mpi"], rule=SIM + "Non-trivial: at least one trained network was compared with an independent copy of its stored parameters."),
    "C21": dict(variants=["def", "mpi"], rule=SIM + "The same region runs with and without the other regions. Non-trivial: other regions executed in between."),
    "C22": dict(variants=["def", "mpi"], rule=SIM + "Non-trivial: a single model was trained on measurements of at least one region and asked."),
    "C23": dict(variants=["def", "mpi"], rule=SIM + "Non-trivial: at least one fixed or replayed recommendation was compared."),
    "C24": dict(variants=["def", "mpi"], rule=SIM + "Non-trivial: an asynchronous execution was outstanding during a later call."),
    "C25": dict(variants=["def", "mpi"], rule=SIM + "Each warm start is compared with a fresh training on the saved pairs in a reference world. Non-trivial: a region started with at least one saved pair."),
    "C26": dict(variants=["def", "mpi"], rule=SIM + "Each plan runs twice, with its operations done in different equivalent ways. Non-trivial: at least one operation was done in another way and a recommendation was compared."),
    "C27": dict(variants=["def", "mpi"], rule=SIM + "Each plan runs with and without diagnostics. Non-trivial: a diagnostic was on and at least one execution completed."),
    "C28": dict(variants=["def", "jit", "mpi", "kk"], rule=SIM + "A block of operations is repeated many times; sizes are compared across repetitions. Non-trivial: enough equal rounds were completed to compare.", assumptions=["memory is what the process allocated through malloc and did not free, at the end of each operation"]),
    "C29": dict(variants=["kk"], rule=SIM + "Devices have work queued that a fence waits for. Non-trivial: a kernel was fenced while something was to be tuned."),
}
for _p in INFO.values():
    _p.setdefault("level", "exploration")
    _p.setdefault("quick_s", 20)
    _p.setdefault("thorough_s", 780)
