import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
CON="qcd-sme/src/consts.rs"; TG="qcd-sme/src/qcd/thermal.rs"; QG="qcd-sme/src/qcd/gluon.rs"; QT="qcd-sme/src/qcd/types.rs"
LG="qcd-sme/src/low_level/oneloop/thermal/gluon.rs"; UT="qcd-sme/src/utils.rs"
PT="tc_long_prop/src/bin/physical_tc.rs"; TL="tc_long_prop/src/lib.rs"; O1="tc_long_prop/src/bin/one_mass_overall.rs"; O2="tc_long_prop/src/bin/two_masses_overall.rs"
p("C01","Field-configuration results ignore process-wide colour/flavour/mass settings",
  "Evaluating a gluon quantity for an explicit field configuration (vacuum, finite temperature, zero temperature at finite density, zero-frequency and zero-momentum limits) gives a value determined by the arguments and the configuration alone. Whatever the process-wide number of colours, number of fermions and default quark mass are, and whenever this or any other thread changes them before, during or after the evaluation, the value is the same.",
  ["schedules","histories","inputs"],"for all field configurations (any number of colours, any list of flavours), evaluation arguments, sequences of settings changes on any threads, and interleavings of those changes with the evaluation",
  "The tests evaluate field configurations sequentially with the process-wide number of colours equal to the configuration's; none changes a setting from another thread while an evaluation runs, and the multi-threaded case is exactly what the crate advertises the field-configuration API for.",
  [TG,QG,QT,LG,CON],[("quark loops take flavour counts, masses and nf/nc from the configuration",QT),("thermal quark polarisation integrands divide by the number of colours",LG)],
  [("NC, NF, NF_DIV_NC, M_QUARK","process-wide mutable settings",CON)],["return value of every *_w_field_config function"])
p("C02","An edited or cloned field configuration behaves like a freshly built one",
  "A field configuration always evaluates according to its current public contents: after any history of clones and edits of its number of colours, gluon mass and flavour list, every quantity equals what a configuration newly built from the same contents gives. Editing or evaluating one copy never affects another copy, on any thread.",
  ["histories","schedules","inputs"],"for all histories of build, clone, edit (colours, gluon mass, adding, removing, changing flavours), evaluate, and hand-over between threads",
  "The tests only evaluate configurations straight after building them; none edits the public fields or evaluates clones on other threads.",
  [QT,QG,TG],[("public fields plus derived per-flavour data",QT)],[("nc, gluon, quarks","public contents",QT),("per-flavour derived ratios","nf/nc and squared mass ratios",QT)],["return value of every *_w_field_config function"])
p("C03","Process-wide settings: every read and evaluation sees the latest setting",
  "After any history of settings changes made one at a time by any threads (colours, fermions, default quark mass, integration tolerance and iteration limit, Matsubara regulator), each getter on every thread returns the value last set and no setting disturbs another. Every default evaluation then uses exactly these values: the fermion-to-colour ratio in quark loops is that of the current two counts, so a single-mass evaluation equals, up to rounding, the explicit field-configuration evaluation with the current colours and fermions.",
  ["histories","schedules"],"for all sequences of setter calls by any threads, ordered by hand-over (setters racing with evaluations of settings-dependent functions are documented as unsupported), and all later reads and evaluations on any thread",
  "Each test sets at most one setting, serially, and restores it; no test runs a history of interleaved changes of colours and fermions from several threads and then evaluates on another.",
  [CON,QG,TG,"qcd-sme/src/qcd/ghost.rs",LG,"qcd-sme/src/low_level/oneloop/thermal/mod.rs"],[("each setter stores its value and recomputes the cached ratio",CON)],[("NF_DIV_NC","cached ratio that must follow both counts",CON)],["get_* functions","single-mass evaluations"])
p("C04","Default evaluations use the current default integration settings",
  "An evaluation that takes no integration method equals, bit for bit, the same evaluation with the current default integration method passed explicitly, after any history of changes to the default tolerance and iteration limit. The only exception is the documented one: while both still have their factory values, the zero-frequency-limit gluon integrals may use a looser tolerance.",
  ["histories","schedules","inputs"],"for all histories of changes to tolerance and iteration limit on any threads, and all functions that integrate with a default method",
  "The tests run with the factory settings only; none customises the tolerance and compares default with explicit methods.",
  ["qcd-sme/src/low_level/oneloop/thermal/zero_matsubara.rs",LG,"qcd-sme/src/low_level/oneloop/thermal/ghost.rs","qcd-sme/src/low_level/oneloop/thermal/mod.rs","qcd-sme/src/low_level/oneloop/thermal/zero_momentum.rs",CON,"qcd-sme/src/qcd/thermal.rs"],[("default variants forward the current default method",CON),("zero-frequency tolerance override",LG)],[("TOL_INTEGRAL, MAX_ITER_INTEGRAL","default integration settings",CON)],["default and *_w_method evaluations"])
p("C05","Evaluations are reentrant: concurrency and history never change a value",
  "With the process-wide settings fixed, every library evaluation returns the same bits whether it runs alone in a fresh process, after any sequence of other evaluations, or interleaved at any point with evaluations on other threads. This includes evaluations that follow, or overlap, an evaluation that panicked.",
  ["schedules","histories","fault_sequences","inputs"],"for all multisets of library evaluations (native and C interface), thread counts, interleavings at basic-block granularity and panics of individual evaluations",
  "The tests run single evaluations against single reference numbers at 1E-12 or looser, and no test overlaps two evaluations under a controlled interleaving.",
  ["qcd-sme/src/lib.rs","qcd-sme/src/low_level","qcd-sme/src/ym","qcd-sme/src/qcd","qcd-sme/src/common",UT],[("evaluations keep no state besides the settings","qcd-sme/src")],None,["return values of all public evaluation functions"])
p("C06","A rejected setting is never visible",
  "A call that sets a non-positive or not-a-number integration tolerance or Matsubara regulator never returns normally and terminates the caller, and no thread ever reads that value or has an evaluation use it, at any point before, during or after the rejected call. Settings accepted earlier stay in force unchanged.",
  ["schedules","histories","fault_sequences"],"for all rejected values, histories of accepted settings, and interleavings of the rejected call with reads and evaluations on other threads up to the termination it causes",
  "No test calls a setter with a rejected value, and none observes the settings from another thread while the call fails.",
  [CON],[("validation before the store",CON)],[("TOL_INTEGRAL, MATSUBARA_REG","validated settings",CON)],["getters on other threads up to process termination"])
p("C07","Root search stays sound when the searched function misbehaves",
  "For every function, including one that starts returning NaN or infinities, returns noise, or panics at an arbitrary evaluation, the root search either returns a point together with the very value the function returned there, smaller in magnitude than the tolerance, or reports failure. It reports failure on NaN instead of returning it, performs at most the requested number of iterations (two evaluations more than the limit), lets a panic through unchanged, and keeps no state that affects a later or concurrent search.",
  ["fault_sequences","schedules","inputs"],"for all real and complex callback behaviours with faults (NaN, infinity, noise, sign flips, panic) injected at arbitrary evaluation indices, all guesses, tolerances and iteration limits, alone or concurrently",
  "The tests search a few smooth functions that behave; none makes the function fail mid-search.",
  [UT,TG],[("NaN test, tolerance test, iteration bound",UT)],None,["find_root"])
p("C08","Pipeline output is independent of thread schedule and worker count",
  "For a given configuration the critical-temperature program writes byte-identical output files and identical plot data for every number of worker threads and every interleaving of them. Rows are always in momentum and chemical-potential order.",
  ["schedules","configurations"],"for all worker counts (including failure to start some or all workers), thread schedules and configurations",
  "The program has no test at all; unit tests cannot choose the work-stealing schedule.",
  [PT,TL],[("parallel maps collected in input order",PT)],None,["output files, plot calls"])
p("C09","A successful pipeline run left every output complete despite I/O failures",
  "If the critical-temperature program exits successfully, every output file of that run exists with its full, correct content and every plot was produced, whatever failures of file creation, writing, directory creation or memory allocation happened during the run. A failure that cannot be masked makes the program exit unsuccessfully.",
  ["fault_sequences","schedules","configurations"],"for all sequences of failing, short, interrupted or out-of-space system calls at any point of the run, under all schedules",
  "The program has no tests, and unit tests cannot make the n-th write of the n-th file fail.",
  [PT,TL],[("buffered writers with explicit error checks",PT)],None,["exit status versus files on disk"])
p("C10","A killed run never leaves wrong data and a rerun always recovers",
  "If the critical-temperature program is killed at any instant, each output file it has touched is a prefix of its correct content, and files it has not reached yet are untouched. Running it again, in whatever state earlier killed, failed or differently configured runs left the output directory, succeeds and produces every output file of its configuration with exactly the content that a run in an empty directory gives.",
  ["crash_points","histories","configurations"],"for all kill points (before, inside and after any system call, and between any two instructions), sequences of kills, failures and reruns, and earlier runs with other configurations",
  "Nothing in the tests kills and restarts the program or starts it over existing output.",
  [PT],[("output files are created truncated, directories created if missing",PT)],None,["output directory after kill and after rerun"])
p("C11","The pipeline computes the configuration it was given, or fails",
  "The run uses exactly the values of the configuration file named on the command line (or the default-named one), falls back to the built-in values only when no such file exists, and fails if the file cannot be opened, read completely or parsed. The configuration it records in its output equals the one used, and a run given the recorded file reproduces the same outputs.",
  ["fault_sequences","configurations","histories"],"for all configurations, and failures, short reads and interruptions while opening and reading the file, in any state of the output directory",
  "No test runs the program; the outcome depends on failures of open and read that tests cannot inject.",
  [PT,"tc_long_prop/configs/default_config.yml"],[("configuration read, defaults, echo",PT)],None,["recorded configuration file, outputs, exit status"])
p("C12","Pipeline results agree with the reference pipeline",
  "For every configuration and schedule the outputs are those of the documented pipeline: propagators normalised at the renormalisation point for each chemical potential and temperature, critical temperatures at the first maximum over the temperature grid, second derivatives by central differences, the corrected masses and normalisation exactly in the deconfined region of the first phase diagram (where neighbouring boundary points share their critical temperature, either side of the plateau is accepted), and the polynomial fit of its non-vanishing part. The set of files, their names, rows and number formats are those the configuration determines.",
  ["configurations","schedules"],"for all physical configurations (masses, grids, renormalisation), worker counts and schedules",
  "No test covers the program or its helper functions, let alone all configurations.",
  [PT,TL],[("normalisation, phase diagram, corrected configuration, fit",PT),("critical temperature, phase boundary, fit helpers",TL)],None,["output files, plot calls"])
p("C13","Diagnostics never influence results",
  "The log level, and log output (on standard error) that fails, blocks, is interrupted or is cut short, never change any output file or plot of the critical-temperature program, nor make it exit unsuccessfully.",
  ["fault_sequences","schedules","configurations"],"for all log levels and all failure sequences of the log stream under all schedules",
  "No test runs the program with a failing or slow log stream.",
  [PT],[("logging facade whose write errors are ignored",PT)],None,["outputs, exit status"])
p("C14","Transient faults are absorbed and the pipeline always terminates",
  "If the only faults are transient (interrupted or short reads and writes, spurious wake-ups, stalled or slow threads, clock jumps, fewer CPUs than expected), the critical-temperature program terminates successfully with all outputs complete and correct. It never deadlocks or loops: it finishes within a bounded number of scheduling steps once such faults stop.",
  ["fault_sequences","schedules"],"for all finite sequences of transient faults and all schedules and worker counts",
  "No test injects transient faults or explores blocking schedules.",
  [PT,TL],[("retrying buffered I/O, fork-join parallelism",PT)],None,["exit status, outputs, simulator deadlock detector"])
p("C15","Parameter-scan programs write a complete critical-temperature table",
  "If a parameter-scan program (one or two quark masses) exits successfully, its table has exactly one row per scanned combination, in scan order, with the critical temperature that the propagator maximum gives, and every figure shows the propagators of its combination, for every schedule and worker count and despite any I/O failures during the run; a failure that cannot be masked makes it exit unsuccessfully, and without failures it succeeds. At any instant the table on disk is a prefix of the correct one, and a rerun over leftovers of a killed run gives the same table.",
  ["fault_sequences","schedules","crash_points"],"for all schedules, worker counts, I/O fault sequences and kill points",
  "These programs have no tests.",
  [O1,O2,TL],[("buffered table file with explicit error checks",O1),("process-wide number of fermions set between parallel sections",O1)],[("number of fermions","set by the main thread before each parallel section",O1)],["tc.out, figures, exit status"])
p("C16","Generated C, C++ and Cython headers are complete whenever the build succeeds",
  "If the build step that generates the C, C++ and Cython headers reports success, all three headers are complete and identical to those of an undisturbed build, whatever I/O failures or earlier interrupted builds happened. Otherwise it reports failure.",
  ["fault_sequences","crash_points","histories"],"for all I/O fault sequences during header generation, kill points, and leftovers of earlier builds",
  "No test runs the header generation, let alone with failures.",
  ["qcd-sme/build.rs"],[("write, read back, patch and rewrite each header","qcd-sme/build.rs")],None,["header files, exit status"])
p("C17","The pipeline touches nothing but its own output directory",
  "The critical-temperature program creates, truncates, writes, renames or deletes nothing outside its own output directory below the working directory, whatever the configuration, faults and kill point. In particular it never alters the configuration file it was given (unless that is the recorded configuration in its own output directory), and within the output directory it never removes files of earlier runs that it does not itself rewrite.",
  ["fault_sequences","configurations","crash_points"],"for all configurations, I/O fault sequences, kill points and earlier contents of the working and output directories",
  "No test runs the program or observes its file-system effects.",
  [PT,TL],[("all paths are built from the base directory",PT)],None,["every mutating file-system call, snapshot of the working directory"])
pure="is a pure function of its arguments: no schedule, clock, fault or history enters"
p("N01","Real and complex evaluations agree on real arguments","Every function that accepts real or complex arguments gives the same value for a real argument and for the same complex argument with zero imaginary part, up to rounding.",["inputs"],"for all arguments in the common domain","Tests sample a few arguments.",["qcd-sme/src/types.rs","qcd-sme/src/low_level"],[("numeric trait with real and complex implementations","qcd-sme/src/types.rs")])
p("N02","C interface equals native interface","Each exported C function returns the same value as the native function it wraps, for the same arguments.",["inputs"],"for all exported functions and arguments","Tests compare a few arguments.",["qcd-sme/src/ffi.rs","qcd-sme/src/low_level"],[("wrappers forward arguments in order","qcd-sme/src")])
p("N03","Physical limits agree","Finite-temperature quantities tend to their vacuum counterparts at vanishing temperature and density, longitudinal and transverse parts agree at zero momentum, zero-frequency and zero-momentum expressions are limits of the general ones, and zero flavours reduces to pure Yang-Mills theory.",["inputs"],"for all arguments near the limits","Tests sample a few points per limit.",[TG,LG,"qcd-sme/src/ym/thermal.rs"],[("separate limit modules","qcd-sme/src/low_level/oneloop/thermal")])
p("N04","Statistical distribution identities","Bose and Fermi distributions (single and double, at zero and finite chemical potential, zero temperature) satisfy their symmetry and limit identities and stay in range.",["inputs"],"for all energies, inverse temperatures and chemical potentials","Tests sample a few points.",["qcd-sme/src/common/thermal.rs"],[("closed formulas","qcd-sme/src/common/thermal.rs")])
p("N05","Chemical potential inverts charge density","Where it returns, the chemical potential computed for a mass, temperature and charge density gives back that charge density within the tolerance.",["inputs"],"for all masses, temperatures and densities","Tests sample a few points.",[TG,UT],[("root search on the charge density",TG)])
p("N06","Numerical agreement with the published formulas","Vacuum and thermal loop functions and integrands equal the published screened-expansion expressions to double precision.",["inputs"],"for all arguments in the domain of definition","Tests compare a few reference numbers.",["qcd-sme/src/low_level"],[("closed formulas","qcd-sme/src/low_level")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
