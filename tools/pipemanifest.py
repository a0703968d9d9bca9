"""The program-level checks and the hooks, for mkmanifest.py."""
SCAN = ("Seeded search over schedules and fault sequences; samples, no proof. The real scan programs from /repo's tree run on coarse "
        "momentum and temperature grids (the guarded hook) with loosened integration settings; file system calls are real inside a "
        "scratch directory with faults injected at the libc boundary; python3/matplotlib is a recording stub. ")
PC = {
 "C08": ("deterministic simulation of the rayon thread pool under seeded schedules and worker counts, byte comparison of all outputs", "Oracle: byte equality of every output and recorded plot with a single-worker run in an empty directory, and row order."),
 "C09": ("deterministic simulation with injected file, memory and thread-start failures, outputs checked against exit status", "Oracle: exit status 0 implies every output and plot equals the undisturbed run's; no deadlock."),
 "C10": ("deterministic simulation with kills at any system call or instruction and reruns over the leftovers", "Oracle: prefix check of every touched file after each kill; the final rerun equals a run in an empty directory."),
 "C11": ("deterministic simulation of configuration reading under open/read failures, malformed and recorded configurations", "Oracle: recorded configuration and outputs against the generated configuration; failure required where the file cannot be used."),
 "C12": ("simulated runs over seeded configurations and schedules against an executable reference pipeline", "Oracle: an independent sequential reference pipeline (refpipe) that shares only the library's propagators and the optimiser; 1e-8 relative."),
 "C13": ("deterministic simulation with failing, short, interrupted and stalled log writes at every log level", "Oracle: success and byte equality with the undisturbed run."),
 "C14": ("deterministic simulation with transient faults only; deadlock and step-budget detection for liveness", "Oracle: success with outputs equal to the undisturbed run within a step budget; deadlock detector."),
 "C15": ("deterministic simulation of the two scan programs under schedules, file failures, kills and reruns, against reference tables", SCAN + "Oracle: an independent sequential computation of every table row and figure, exit status, prefix check after kills."),
 "C16": ("deterministic simulation of the header-generating build step with injected file failures, kills and rerun builds",
         "Seeded search over fault sequences and histories of builds; samples, no proof. The real build script runs as a program, with the real cbindgen, mostly "
         "on small generated crates and in one of 40 blocks on the library's own sources; cargo metadata is a canned reply. Failing stat calls "
         "are not injected (cbindgen reads them as an absent module). Oracle: headers of an undisturbed build, themselves checked against the exported symbols."),
 "C17": ("deterministic simulation recording every mutating file operation under faults and kills, plus directory snapshots", "Oracle: mutations recorded at the libc boundary and before/after snapshots of the scratch tree lie inside the output directory."),
}
HOOKS = {"guard": "cfg qcd_sme_sim", "enable": "RUSTFLAGS=--cfg qcd_sme_sim, set by sim/build.sh; coarser grids in the two scan programs only",
         "source_commits": ["1deb657"]}
