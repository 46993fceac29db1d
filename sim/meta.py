"""What each check explores (texts that go into MANIFEST.json and the evidence files)."""
REAL = ["all QDng library and program sources of /repo (src/tools, src/qdlib, src/fft, src/linalg, src/math, src/modules, "
        "src/*.cpp)", "libstdc++ streams", "protobuf, zlib, bzip2, libxml2, LAPACK/BLAS", "FFTW transforms (ESTIMATE plans)"]
STUB = ["kernel file I/O results (interposed: real files in a private tmpfs directory, errors, short transfers, EINTR, full "
        "disk and crashes decided by the plan)", "clock, times(), sysinfo, /dev/urandom, mkstemp names",
        "FFTW planner timing and wisdom file (simulated)", "OpenMP runtime (simulated threads)", "posix_memalign failures"]
DST = "deterministic simulation with fault injection: seeded search over "
META = {
    "C01": {
        "technique": DST + "save histories and disk-fault plans, judged by a fresh simulated process",
        "note": "Real writers and readers over an interposed disk; open/write/close errors, full disk, short writes, EINTR. "
                "Power loss (unsynced data) is out of scope: QDng never syncs and promises nothing about it.",
        "rule": "A run = a generated sequence of saves (object kind, shape, values, format, compression, sequence index, "
                "writer reuse) executed by the real writers under a fault plan, then read back by a fresh process. "
                "Non-trivial: at least one save ran; distinct by hash of the complete system-call/result event log.",
        "assumptions": ["a crash-free kernel keeps what write() accepted", "close() errors lose at most the tail of the file"]},
    "C02": {
        "technique": DST + "read-fault plans and truncation points of stored data",
        "note": "Every kind of stored object and format; files removed, emptied or cut at generated byte positions, reads failing "
                "or ending early at any event. Flipped bytes inside a file of full length are not covered (the formats carry no checksum).",
        "rule": "A run = one stored object plus a sequence of loads, each under injected read faults or over a file that was "
                "removed, emptied or cut at a byte position; every load is followed by a load of the intact file. Distinct by "
                "hash of the event log.",
        "assumptions": ["file contents are either intact or a prefix of what was written (no silent bit flips)"]},
    "C03": {
        "technique": DST + "histories of saves, loads, sequence steps and packed streams against a map model",
        "note": "Histories of 3-40 operations over single files, numbered series, operators and packed streams with reused reader "
                "and writer objects, under short transfers and EINTR; model: map from (name, index) to object.",
        "rule": "A run = one generated history executed by the real file classes in one process, each load compared with the map "
                "model, the complete store re-read by new readers at the end. Distinct by hash of the event log.",
        "assumptions": ["members of one numbered series share type and shape (the binary series format has one description per "
                        "series)", "single files and series use different base names"]},
    "C04": {
        "technique": DST + "buffer access histories and paging-file faults against an array model",
        "note": "Real WFBuffer over real wave functions; limits of 0-9 elements, one or two buffers sharing a directory, "
                "locks, auto-lock windows, resizing, clearing, late changes through pointers, series export and import; "
                "open/write/read/close/stat errors, full disk, short transfers and EINTR on the paging files.",
        "rule": "A run = a generated history of 4-80 buffer operations; after each one every pointer the window or a lock keeps "
                "valid is compared bit by bit with an array model and the memory in use with the limit. Distinct by hash of the event log.",
        "assumptions": ["an operation that needs at most one element less than the capacity must succeed (element 0 is pinned by design)",
                        "grid wave functions may carry one transform buffer that the limit does not count"]},
    "C05": {
        "technique": DST + "scripted client sessions over a fragmented, cut or broken connection against direct execution",
        "note": "Real CmdHandler over a simulated stream connection (delivery in chunks of 1 byte up to everything, pipelined "
                "commands, end of input at any byte, output refused from any byte, garbage frames, damaged payloads), real files "
                "with open/read/write/close errors and full disk; the answers, stored files and program output are compared "
                "with a second process that performs the same actions without the server.",
        "rule": "A run = one scripted session of 1-20 commands through the real command server with its connection and storage "
                "faults, plus the reference process. Distinct by hash of the event log.",
        "assumptions": ["stream sessions (standard input/output); a FIFO session keeps both ends open by design and never sees a disconnect, its names are C11"]},
    "C06": {
        "technique": DST + "kill points of whole propagation runs, re-runs over the leftovers",
        "note": "The real qdng main program on generated inputs (six kinds of systems, five propagators, all formats and compressions) "
                "killed before any of its system calls or in the middle of a write, up to three times in a row, also over leftovers of "
                "another run, plus failing disks; kill means process death, everything written before survives.",
        "rule": "A run = one generated propagation, an undisturbed execution as reference, up to three executions killed or failed by the plan "
                "(the files checked after each) and a final re-run. Distinct by hash of the event log.",
        "assumptions": ["process kill, not power loss (QDng never syncs)", "one run at a time per output directory"]},
    "C07": {
        "technique": DST + "system-call and allocation fault plans over whole program runs",
        "note": "The real qdng main program on generated inputs: propagation, eigenfunctions (relaxation, correlation, Lanczos), filter, "
                "correlation functions, optimal control, continued and chained runs; open/read/write/close/seek/stat/rename/unlink/mkdir "
                "errors, full disk, I/O errors, files that end early, short transfers, refused allocations. Screen output is not judged.",
        "rule": "A run = one generated input file with stored inputs, executed without faults (reference) and under a fault plan of 1-3 "
                "faults; the exit status and every output file are compared. Distinct by hash of the event log.",
        "assumptions": ["an input file that ends early is one whose rest is missing; configuration files are never cut (an empty one is valid)"]},
    "C08": {
        "variant": "tsan",
        "technique": DST + "seeded schedules of the worker threads with pre-emption at every memory access, compared with the one-thread run",
        "note": "The OpenMP runtime is the simulator's own: workers are coroutines on one OS thread, pre-empted at compiler-inserted "
                "memory-access hooks. 46 vector primitives and codelets, grid views, wave function operations (products, norms, integrals, "
                "copies, reduction), a dissipation operator, the parallel log, and whole programs run as 'qdng -pN'. Schedules: random "
                "(average distance 1-256 accesses), random priorities with change points, and schedules directed at accesses that were "
                "seen to conflict in an earlier run.",
        "rule": "A run = a list of operations or an input file, executed with one thread (reference) and then with 2-16 threads under 2-6 "
                "different schedules; values agree to 1e-11 (operations) or 1e-8 (files of whole programs) of the largest one, and no "
                "schedule crashes, hangs or blocks. Distinct by hash of the sequence of thread switches.",
        "assumptions": ["sequentially consistent memory: reordering by compiler or CPU inside one thread is not explored",
                        "FFTW, LAPACK and the C++ library run with one thread and are not pre-empted inside"]},
    "C09": {
        "technique": DST + "environments (clock, entropy, process id, memory report, fresh-memory contents, tuning files, leftovers) of whole program runs",
        "note": "The real qdng main program run in a reference environment and in up to three generated others: steady, jittering or jumping clocks from 1970 to "
                "2106, other random streams and process ids, 60 kB to 1 TB reported memory, other contents of fresh heap and stack memory, tuning file valid, "
                "stale, foreign, garbage, cut, empty, a directory, unwritable; leftovers of complete, killed, cut or foreign earlier runs; failing entropy and sysinfo. "
                "FFT planning is a stub that keeps what a measuring planner does to its callers (overwrites both arrays unless wisdom is known).",
        "rule": "A run = one generated program, its reference execution, 1-3 executions in other environments and one under environment faults; all output files are "
                "compared number by number. Distinct by hash of the event log.",
        "assumptions": ["differences below 1e-9 of a file's largest value are rounding (vector code depends on allocation addresses)",
                        "less than 2 MB of reported memory may make a run fail with an error"]},
    "C10": {
        "technique": DST + "allocation-failure and memory-limit injection over object histories, the release build's manager and whole programs, against an accounting model",
        "note": "Real Memory manager (as built, and compiled a second time as a release build with its 4 KiB blocks and cached free slots), vectors, matrices, "
                "wave functions, LAPACK workspaces, file readers/writers and the qdng main program. Limits from below one object to unlimited, set before and "
                "changed during the run; single and repeated refusals of the n-th allocation; read/write errors in between. Only memory obtained through the manager "
                "is limited: small C++ bookkeeping objects are outside it, as in the program.",
        "rule": "A run = one generated history of 4-80 operations (object contents, reported usage, peak, availability, limit and the really allocated bytes are compared after "
                "each one; nothing may be left at the end), or one program run freely, under 1-3 limits and with refused allocations. Distinct by hash of the event log.",
        "assumptions": ["differences below 1e-9 of a file's largest value are rounding (vector code depends on allocation addresses)",
                        "ten times the unlimited peak is a fitting limit for a program (buffers take two thirds of what is free)"]},
    "C11": {
        "technique": DST + "histories over several temporary arrays, buffers and pipes with disk faults, against array models and the directory listing",
        "note": "Real TmpFile (three element types, mapped and unmapped), FIFO and WFBuffer objects, up to nine at a time in one directory, with foreign files under "
                "colliding names, a repeating entropy source and a second process stopped at a generated point of the same program; mkstemp/mkfifo/open/seek/ftruncate/"
                "mmap/read/write/close/unlink errors, full disk, short and empty transfers, EINTR. A mapped page the disk cannot back (SIGBUS) is not simulated.",
        "rule": "A run = a generated history of 4-80 operations; after each one the contents of mapped arrays, every value read, sizes and the complete directory listing "
                "(each file belongs to a living owner, foreign files unchanged) are checked. Distinct by hash of the event log.",
        "assumptions": ["process ids are unique among living processes sharing a directory", "after a failed operation an array may be closed, then its file must be gone"]},
    "C12": {
        "technique": DST + "buffer limits, paging directories, kill points and paging-file faults of whole program runs, against an unpaged run",
        "note": "The real qdng main program (SIL and Arnoldi propagation, Lanczos/correlation/relaxation eigenfunctions with "
                "diagonalisation, correlation functions, optimal control) with MaxBufferSize from one element to more than all, buffer files in five "
                "directories (one missing); open/read/write/close/stat/unlink/random errors, full disk, short transfers, EINTR, kill and re-run over the leftovers.",
        "rule": "A run = one generated program executed with ample memory (reference), under 1-3 limits and, paged, under a fault plan; all output "
                "files are compared number by number. Distinct by hash of the event log.",
        "assumptions": ["differences below 1e-9 of a file's largest value are rounding (vector code depends on allocation addresses)",
                        "a limit too small is reported by the 'MaxBufferSize' error"]},
    "C13": {
        "technique": DST + "propagation/analysis histories with kill points, damaged series and read faults, run-time tables against tables from storage",
        "note": "Real qdng main program: generated propagations (six systems, all formats, compressions, write cycles, filters) analysed while "
                "they run and again from storage by the filter program, the correlation method of the eigenfunction search and the correlation "
                "function program; steps removed, cut or claimed but absent; the propagation killed at any system call; read, open, stat, write and "
                "allocation faults during the analysis; the same history in another format, write cycle, decompressed or within one input file.",
        "rule": "A run = one generated propagation with its in-run analysis, the analysis of the stored series (compared number by number) and one "
                "variation or fault plan. Distinct by hash of the event log.",
        "assumptions": ["columns integrated over time are compared only when every step is stored",
                        "lossy compressed series are compared within 5 percent of the column's scale"]},
    "C14": {
        "technique": DST + "kill points and disk faults over runs of the compression tool, value comparison with the data before",
        "note": "The real qdz main program over single files and numbered series (raw and stream format, all wave function classes, "
                "series of mixed type, members damaged or removed beforehand), killed before any system call or in the middle of a write, "
                "open/read/write/close/seek/stat/rename/unlink errors, full disk, short transfers, refused allocations.",
        "rule": "A run = stored data and 1-4 calls of the tool; after each call, on a healthy and on the faulty system, every member is loaded "
                "and compared with the data before the call (bit by bit for decompression, within the cut-off for compression). "
                "Distinct by hash of the event log.",
        "assumptions": ["process kill, not power loss", "members of a series are numbered from 0 without gaps"]},
    "C15": {
        "technique": DST + "histories of programs and commands in one process with faults and kill points, each program against its run alone in a fresh process",
        "note": "The real qdng main program over input files with 2-4 programs (propagation, three kinds of eigenfunctions, filter over an earlier propagation, "
                "correlation function, optimal control, broken ones), and interactive sessions that run the same programs with other succeeding and failing commands "
                "in between; operators written out, taken from an opdefs section, built from references, or loaded by LOAD_OP. Disk errors, full disk, short "
                "transfers, EINTR, refused allocations and kill at any system call of the combined run. The session's streams are in-memory.",
        "rule": "A run = one generated history: each program alone in a process of its own (reference), the combined run, and the combined run under a fault; the output "
                "directory of every program that ended is compared number by number. Distinct by hash of the event logs.",
        "assumptions": ["differences below 1e-9 of a file's largest value, or of the size the program itself makes of input changes in the last digits, are rounding",
                        "an optimal control changes the laser it shares through opdefs, so it comes last there"]},
    "C16": {
        "technique": DST + "stopping points, kill points and fault plans of runs that are then continued from their stored output",
        "note": "The real qdng main program: propagations (six kinds of systems, five propagators, also time-dependent ones, write cycles 1-5, three storage formats, "
                "filters before and after the step) and eigenfunction searches in imaginary time, stopped as planned, killed at any system call or in the middle of a "
                "write, or ended by disk errors, up to three times, each time continued with the option start from the last or an earlier stored member. "
                "Lossy compression, quantities summed over the whole run and eigenfunctions of time-dependent Hamiltonians are left out.",
        "rule": "A run = one generated program, its undisturbed execution as reference, one to three executions that stop early, and a last one that is continued to the end; "
                "wave functions, description, energies and the rows of the tables are compared with the reference. Distinct by hash of the event logs.",
        "assumptions": ["process kill, not power loss", "file n of a propagation holds the wave function after n write cycles (as Propagation.meta and the analysis programs take it)",
                        "differences below 1e-9 of a file's largest value, or of the size the program itself makes of input changes in the last digits, are rounding"]},
}
_PURE = ("A pure function of its input: no thread schedule, clock, I/O, crash or peer decides it, so simulating schedules and "
         "faults adds nothing over ordinary testing; ")
NA = {
    "N01": _PURE + "numerical accuracy of a propagator is a statement about arithmetic (numerical analysis, not simulation).",
    "N02": _PURE + "translating and re-reading parameter text is a text-to-text function (what files do to it under faults is C01, C02, C06).",
    "N03": _PURE + "operator algebra against dense matrices is arithmetic.",
}
