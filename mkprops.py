#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": mech,
                          "observe_at": observe or [], "hook_needed": hook}})
HOOK = "SLALIB_THREAD_SAFE must be settable from the compiler command line (guarded by #ifndef)"
ALL = ["src/*.cc", "src/slalib.h", "src/f77_utils.h"]

prop("C01", "Concurrent callers never influence each other's results",
 "In a build configured for multi-threaded use, any number of threads may call any library functions at the same time on their own output objects (read-only inputs may be shared), and every call returns bit for bit what the same call returns when it is the only one running in a fresh process. This includes several threads making the very first call of a function in the process simultaneously. (The two random-number functions are covered by C06 and C07.)",
 ["schedules", "inputs"], "every interleaving, at memory-access granularity, of calls by 2 or more threads to any of the library's functions, from a freshly started process, for every argument tuple",
 "sla-test is single threaded: it makes one call at a time, so no interleaving of two calls is ever executed.",
 ALL, [{"name": "all working storage is automatic (stack) or caller supplied; tables are constant", "where": "src/*.cc"},
       {"name": "SLALIB_THREAD_LOCAL on the few static objects", "where": "src/slalib.h, src/random.cc, src/gresid.cc"},
       {"name": "function-local static table with C++ guarded initialisation", "where": "src/obs.cc"}],
 observe=["return values, status codes and output arguments of every API function"], hook=HOOK)

prop("C02", "A call's result depends only on its arguments, never on earlier calls",
 "Whatever calls (successful, rejected for bad arguments, or of other functions) were made before in the process, a call to any function other than the two random-number functions returns bit for bit what it returns as the first call of a fresh process with the same arguments. The result does not depend on what output arguments held before the call nor on values left over in memory by earlier calls: each output is either determined by the inputs or left untouched.",
 ["histories", "inputs"], "every sequence of API calls, with any arguments, preceding the observed call, in both the default and the multi-threaded configuration; every prior content of output arguments and of dead stack memory",
 "sla-test makes one fixed sequence of about 300 calls in one order, mostly one call per function, and never repeats a call in a different context.",
 ALL, [{"name": "no mutable static state apart from the two generators", "where": "src/*.cc"},
       {"name": "every local is initialised before use; outputs are assigned, not accumulated into", "where": "src/*.cc"}],
 observe=["return values, status codes and output arguments of every API function"], hook=HOOK)

prop("C03", "An abandoned call leaves the library fully usable",
 "If a call is abandoned at any instant part-way through (the caller's signal handler jumps out of it, or the thread making it dies), all later calls in the same or other threads still return, and return exactly what they would have returned had the abandoned call never been made. Only the abandoned call's own output objects may be left half-written; one-time C++ initialisation of a constant table and the two random-number functions are excepted.",
 ["crash_points", "histories", "inputs"], "every instant of every call at which it can be cut off, and every subsequent call sequence",
 "no test cuts a call short; each test lets every call finish.",
 ALL, [{"name": "no locks, no busy flags, no in-place edits of shared tables that would need undoing", "where": "src/*.cc"}],
 observe=["results of calls made after the abandoned one"], hook=HOOK)

prop("C04", "Calls may be nested inside an interrupted call of the same thread",
 "A call made from a signal handler that interrupts another library call on the same thread, at any instant, returns its normal result, and the interrupted call, when resumed, also returns its normal result. This holds for any pair of functions, the same function included, and for nested interruptions; one-time C++ initialisation of a constant table, the two random-number functions and the delay function are excepted.",
 ["schedules", "inputs"], "every instant of every call at which a nested call can be made, for every pair of functions and arguments, nesting to any depth",
 "no test re-enters the library; -- thread-local scratch space, which concurrency tests would not notice either, would break this.",
 ALL, [{"name": "working storage is automatic", "where": "src/*.cc"}],
 observe=["results of the interrupted and of the interrupting call"], hook=HOOK)

prop("C05", "A call touches only the caller memory it was handed",
 "During a call the library writes only to the output objects of that call, within their documented extent, and never (not even temporarily) to input objects, so that inputs may be shared read-only between concurrently running calls. It reads no caller memory beyond its arguments, and after returning it never again reads or writes an object passed to an earlier call.",
 ["schedules", "histories", "inputs"], "every API call with every argument shape (matrix orders, logical/physical dimensions, sample counts, string lengths), every memory access made during the call, under concurrent calls that share inputs and after earlier objects were recycled",
 "tests compare only the outputs they asked for; a transient write to an input, a write next to an output, or a retained pointer is invisible to them.",
 ALL, [{"name": "const-qualified inputs, local copies of inputs that need modification", "where": "src/*.cc"},
       {"name": "index helpers bounded by logical dimensions", "where": "src/svd.cc, src/svdsol.cc, src/svdcov.cc, src/dmat.cc, src/smat.cc"}],
 observe=["every load and store executed by library code, classified against the call's argument objects"], hook=HOOK)

prop("C06", "random(): one reproducible stream per thread, fixed by its first seed",
 "In a build configured for multi-threaded use the numbers a thread gets from random() are fully determined by the seed of that thread's first call, under any interleaving with other threads' calls and with any other library calls; in the default build the same holds for the process as a whole, and a given seed gives the same stream in both builds and in every process. Seeds after the first are ignored; two seeds of the same sign and of magnitude at least 1, within a factor of three of each other, that differ by more than one part in ten thousand give different streams. Every number is in the range 0 (included) to 1 (excluded), and long runs are uniformly distributed and free of short cycles.",
 ["schedules", "histories", "configurations"], "every interleaving of random() calls by several threads with each other and with other functions, every first seed and later seed, both configurations",
 "random() is not called by any test; a test could at best sample one thread and one seed.",
 ["src/random.cc", "src/slalib.h"], [{"name": "thread-local engine and first-call flag", "where": "src/random.cc"}, {"name": "SLALIB_THREAD_LOCAL", "where": "src/slalib.h"}],
 state=[{"name": "generator, first_time", "meaning": "engine state; whether this thread/process has seeded it", "where": "src/random.cc"}],
 observe=["values returned by random() per thread"], hook=HOOK)

prop("C07", "gresid(): independent, reproducible normal deviates per thread",
 "In a build configured for multi-threaded use every thread gets from gresid() the same fixed sequence of unit normal deviates, each multiplied by the standard deviation passed to that very call, under any interleaving with other threads and with any other library calls (random() included); in the default build the same holds for the process as a whole, and the sequence is the same in both builds. Each deviate is delivered exactly once (none lost, repeated or torn between callers), and long runs have mean 0, the requested standard deviation and normal shape.",
 ["schedules", "histories", "configurations"], "every interleaving of gresid() calls by several threads with each other, with random() and with other functions, every sequence of standard deviations, both configurations",
 "gresid() is not called by any test; the pair cached between two calls makes the outcome depend on the interleaving.",
 ["src/gresid.cc", "src/slalib.h"], [{"name": "thread-local engine, cached second deviate and flags", "where": "src/gresid.cc"}],
 state=[{"name": "generator, g_next, first, ftf", "meaning": "engine, second deviate of the pair, which of the pair is next, whether seeded", "where": "src/gresid.cc"}],
 observe=["values returned by gresid() per thread"], hook=HOOK)

prop("C08", "wait() delays its caller for the full requested time, and only its caller",
 "wait(s) returns no earlier than s seconds (rounded to the nearest whole second; at once if that is zero or negative) after it was called, however often the sleep is interrupted by signals and however the system's wall clock is stepped meanwhile. It returns within the scheduling latency of that deadline, and while one thread waits, calls in other threads (waits included) proceed unhindered.",
 ["fault_sequences", "schedules", "inputs"], "every sequence of signal interruptions, late wake-ups and wall-clock steps during the delay, any number of threads waiting or computing concurrently, every delay below 2^31 seconds",
 "wait() is not tested; a test could not wait for long delays nor control interruptions and clock steps.",
 ["src/wait.cc", "src/f77_utils.h"], [{"name": "std::this_thread::sleep_for, which resumes after EINTR with the remaining time and is unaffected by wall-clock steps", "where": "src/wait.cc"}],
 observe=["simulated monotonic time at call and return"], hook=HOOK)

prop("C09", "permut() walks all permutations exactly once, its state held by the caller",
 "Starting from an initialised state, successive permut() calls deliver the descending permutation first, the ascending one last and each of the n! permutations exactly once, then report exhaustion while restarting the same cycle. The walk is carried entirely in the caller's state array: it survives being interleaved with other walks and calls, moved to another thread, or saved and resumed in a new process after a crash at any instant, continuing exactly where the saved state left off; rejected calls (n below 1) change nothing.",
 ["histories", "schedules", "crash_points"], "every n, every interleaving of several walks over threads, every point at which a walk is moved, abandoned mid-call and resumed from its last saved state, re-initialised, or mixed with rejected calls",
 "t_percom makes a few successive calls of a single walk in one thread.",
 ["src/permut.cc"], [{"name": "mixed-radix counter kept in state[]", "where": "src/permut.cc"}],
 state=[{"name": "state[]", "meaning": "mixed-radix index of the current permutation", "where": "caller"}],
 observe=["order[], state[] and status of each call"], hook=HOOK)

prop("C10", "combn() walks all combinations exactly once, its state held by the caller",
 "Starting from an initialised list, successive combn() calls deliver 1..k first and then every k-element subset of 1..n exactly once, each in ascending order, then report exhaustion while restarting with 1..k. The walk is carried entirely in the caller's list: it survives being interleaved with other walks and calls, moved to another thread, or saved and resumed in a new process after a crash at any instant, continuing exactly where the saved list left off; rejected calls (sizes out of range) change nothing.",
 ["histories", "schedules", "crash_points"], "every k and n, every interleaving of several walks over threads, every point at which a walk is moved, abandoned mid-call and resumed from its last saved list, re-initialised, or mixed with rejected calls",
 "t_percom makes a few successive calls of a single walk in one thread.",
 ["src/combn.cc"], [{"name": "successor computed from list[] alone", "where": "src/combn.cc"}],
 state=[{"name": "list[]", "meaning": "current combination", "where": "caller"}],
 observe=["list[] and status of each call"], hook=HOOK)

prop("C11", "Station catalogue: stable, complete, consistent under concurrent use",
 "Under any interleaving of threads, first use included, enumerating obs(0,..), obs(1,..), ... until it fails visits the same stations in the same order, each with a distinct non-empty upper-case identifier, and looking a station up by its identifier returns the same record as by number, by a prefix the first record in that order whose identifier starts with it; a failed look-up always yields \"?\" texts and zero coordinates. Texts handed out by obs() and vers() stay valid and unchanged for the life of the process, whatever calls follow.",
 ["schedules", "histories", "inputs"], "every interleaving of enumerations and look-ups (by number, identifier, prefix, unknown) by several threads starting from a fresh process, with texts re-read after any later calls",
 "t_obs looks three stations up in one thread and reads the texts at once.",
 ["src/obs.cc", "src/vers.cc", "src/veri.cc"], [{"name": "constant table initialised under the C++ static guard; string literals returned by pointer", "where": "src/obs.cc, src/vers.cc"}],
 state=[{"name": "observatories[]", "meaning": "station table, filled on first use", "where": "src/obs.cc"}],
 observe=["Observatory records; text behind previously returned pointers"], hook=HOOK)

prop("C12", "Failing allocations and system calls never yield wrong results",
 "When any request the library makes of the operating system or C runtime during a call (memory, files, clocks, environment) fails, the call still returns its normal result, or reports the failure by a C++ exception: it never crashes, hangs or silently returns something else. Later calls, with the fault gone, return their normal results.",
 ["fault_sequences", "inputs", "histories"], "every subset of the allocation and system-call requests made during every call failing, for every function and argument",
 "tests run with ample resources and inject no failure.",
 ALL, [{"name": "workspaces are automatic or supplied by the caller (ws arguments); no heap, no I/O", "where": "src/svd.cc, src/dmat.cc, src/fitxy.cc and all others"}],
 observe=["results of calls under armed faults and afterwards"], hook=HOOK)

prop("C13", "Calls neither depend on nor disturb the process environment",
 "No result other than the elapsed time of wait() depends on the current time, entropy, environment variables, locale, the calling thread's error number or pending floating-point exception flags. No call changes the thread's floating-point rounding mode or trap settings, the signal mask or handlers, the locale, environment variables or working directory, and none writes to standard output, standard error or any file.",
 ["configurations", "histories", "inputs"], "every ambient state (clock value, entropy, environment, locale, errno, sticky FP flags) at every call, for every function and argument, random-number functions included",
 "tests run in one environment and do not compare ambient state before and after.",
 ALL, [{"name": "functions use only arithmetic and libm; wait() uses only the sleep primitive", "where": "src/*.cc"}],
 observe=["results under perturbed ambient state; ambient state before/after each call"], hook=HOOK)

prop("C14", "Multi-call computations can be paused, moved and resumed after a crash",
 "Computations that span several calls (fit, predict and invert a plate model; factorise, solve and estimate covariances; derive and apply refraction, precession-nutation or site parameters; calendar to sidereal time chains) carry all their intermediate state in caller-owned objects. Running each step on a different thread, interleaved with other such computations, abandoning a step at any instant and redoing it from its saved inputs, or restarting the process between steps gives bit for bit the final results of an undisturbed run.",
 ["crash_points", "schedules", "histories"], "every assignment of steps to threads, every interleaving with other computations, every crash instant within or between steps followed by resumption from the caller's saved objects",
 "t_fitxy and t_svd run each chain once, in one thread, without interruption.",
 ["src/fitxy.cc", "src/pxy.cc", "src/invf.cc", "src/xy2xy.cc", "src/dcmpf.cc", "src/svd.cc", "src/svdsol.cc", "src/svdcov.cc", "src/refco.cc", "src/refz.cc", "src/refv.cc", "src/prec.cc", "src/nut.cc", "src/prenut.cc", "src/slalib.h"],
 [{"name": "models, factors and workspaces are explicit arguments", "where": "src/fitxy.cc, src/svd.cc, src/refco.cc"}],
 observe=["outputs of the last steps of each computation"], hook=HOOK)

prop("C15", "A stalled or dead thread never holds up calls made by others",
 "In a build configured for multi-threaded use, while some threads are suspended indefinitely at arbitrary instants inside library calls, every call made by the remaining threads still completes, in a number of steps bounded by what it takes alone, with its normal result; once resumed, the suspended calls complete normally too. One-time C++ initialisation of a constant table is excepted.",
 ["schedules", "fault_sequences", "inputs"], "every instant of every call at which its thread can be suspended, for every set of calls made by the other threads (random-number functions included)",
 "single-threaded tests have nobody to stall.",
 ALL, [{"name": "no locks or shared mutable state", "where": "src/*.cc"}, {"name": "thread-local generators", "where": "src/random.cc, src/gresid.cc"}],
 observe=["completion and step count of calls in running threads"], hook=HOOK)

prop("C16", "Calls work at every stage of the process's life, forked children included",
 "A call to any function other than the two random-number functions and the delay function returns its normal result at whatever stage of the process it is made: before main(), from a static initialiser of the calling program that runs before all or some of the library's own initialisers; while a thread or the process is ending, from a destructor or exit handler that runs after those the library left behind; and in a child process forked at any instant, also while other threads of the parent are inside library calls. One-time C++ initialisation of a constant table under way at the fork is excepted.",
 ["schedules", "histories", "crash_points", "inputs"], "every stage of the process's life at which a call can be made, every order of initialisers of different source files, every instant at which a fork can happen, every function and argument",
 "every test runs inside main(), in one process that never forks; what is left to do at its exit is nobody's concern.",
 ALL, [{"name": "constants are compile-time constants or function-local statics: nothing depends on dynamic initialisers", "where": "src/*.cc, src/obs.cc"},
       {"name": "no static or thread-local object has a destructor; no exit or fork handlers; no locks", "where": "src/*.cc"}],
 observe=["results of calls made before main(), during exit, in forked children"], hook=HOOK)

# ---- pure-function properties: listed, not claimable by simulation -------------------------------------------------
pure = "the tests evaluate a handful of argument tuples per function"
def purep(id, title, st, text, files, mech):
    prop(id, title, st, ["inputs"], text, pure, files, [mech])
purep("C20", "Coordinate transformations and their inverses round-trip",
 "Converting a direction to another system and back (equatorial/galactic/supergalactic/ecliptic, horizon/equatorial, FK4 galactic, E-terms added/removed) returns the original direction to within the stated numerical precision, everywhere on the sphere including the poles.",
 "every direction, date and latitude", ["src/eqgal.cc", "src/galeq.cc", "src/galsup.cc", "src/supgal.cc", "src/eqecl.cc", "src/ecleq.cc", "src/e2h.cc", "src/h2e.cc", "src/de2h.cc", "src/dh2e.cc", "src/eg50.cc", "src/ge50.cc", "src/addet.cc", "src/subet.cc"], {"name": "rotation by a matrix and its transpose", "where": "src/eqgal.cc etc."})
purep("C21", "Every rotation matrix produced is orthonormal and proper",
 "Matrices for Euler angles, axial vectors, precession, nutation, ecliptic and their products are orthogonal with determinant +1 to rounding, and precession from A to B is inverse to that from B to A.",
 "every angle and epoch", ["src/deuler.cc", "src/dav2m.cc", "src/prec.cc", "src/precl.cc", "src/prebn.cc", "src/nut.cc", "src/prenut.cc", "src/ecmat.cc"], {"name": "products of elementary rotations", "where": "src/deuler.cc"})
purep("C22", "Calendar and Julian date conversions are mutually inverse and validated",
 "For every date in range calendar to MJD and back is the identity, consecutive days differ by one, and out-of-range year, month or day is reported with the documented status.",
 "every calendar date and MJD in range", ["src/cldj.cc", "src/caldj.cc", "src/clyd.cc", "src/calyd.cc", "src/djcal.cc", "src/djcl.cc", "src/slalib.cc"], {"name": "integer day-number arithmetic", "where": "src/cldj.cc, src/djcl.cc"})
purep("C23", "Time scales: leap seconds, TT, TDB, sidereal time are consistent",
 "TAI-UTC steps only at announced leap seconds and TT-UTC exceeds it by 32.184 s; TDB-TT stays within its periodic bounds; sidereal time advances continuously and its split-argument form agrees; Julian and Besselian epochs convert back and forth exactly to rounding.",
 "every date", ["src/dat.cc", "src/dtt.cc", "src/dt.cc", "src/rcc.cc", "src/gmst.cc", "src/gmsta.cc", "src/eqeqx.cc", "src/epj.cc", "src/epb.cc", "src/epco.cc"], {"name": "table of leap seconds; polynomial models", "where": "src/dat.cc, src/gmst.cc"})
purep("C24", "Sexagesimal conversions normalise and round-trip",
 "Splitting an angle or interval into fields gives in-range fields, correct sign and rounding carried across fields, and recombining them returns the value to the chosen precision; out-of-range fields are reported.",
 "every angle/interval and number of places", ["src/dd2tf.cc", "src/cd2tf.cc", "src/dr2af.cc", "src/dr2tf.cc", "src/cr2af.cc", "src/cr2tf.cc", "src/dtf2d.cc", "src/dtf2r.cc", "src/daf2r.cc", "src/caf2r.cc", "src/ctf2d.cc", "src/ctf2r.cc"], {"name": "integer field separation after rounding", "where": "src/dd2tf.cc"})
purep("C25", "Spherical and Cartesian forms are mutually inverse, velocities included",
 "Converting between spherical and Cartesian positions (and position-velocity pairs) and back is the identity to rounding, with the pole and null-vector conventions documented; separations and bearings agree between vector and spherical forms and are symmetric.",
 "every direction, distance and rate", ["src/dcs2c.cc", "src/dcc2s.cc", "src/ds2c6.cc", "src/dc62s.cc", "src/dsep.cc", "src/dsepv.cc", "src/dbear.cc", "src/dpav.cc"], {"name": "atan2-based inversion with degenerate cases", "where": "src/dcc2s.cc, src/dc62s.cc"})
purep("C26", "Tangent-plane projection and de-projection are inverse with correct status",
 "For points on the tangent plane projection then de-projection returns the point, the plate-centre solvers return centres that reproduce the plate coordinates, and points too far from the axis are flagged.",
 "every tangent point and star", ["src/ds2tp.cc", "src/dtp2s.cc", "src/dtps2c.cc", "src/dv2tp.cc", "src/dtp2v.cc", "src/dtpv2c.cc"], {"name": "gnomonic projection formulae", "where": "src/ds2tp.cc"})
purep("C27", "Refraction models agree with each other and behave monotonically",
 "The quick, two-constant and integrated refraction values agree within documented limits, refraction grows with zenith distance, is zero at the zenith and is clamped beyond the documented limit.",
 "every atmosphere, wavelength and zenith distance", ["src/refro.cc", "src/refco.cc", "src/refcoq.cc", "src/refz.cc", "src/refv.cc", "src/atmdsp.cc"], {"name": "numerical integration; tan z / tan^3 z model", "where": "src/refro.cc, src/refz.cc"})
purep("C28", "Linear algebra: inverse, determinant, solution and SVD are correct",
 "For non-singular systems the returned inverse, determinant and solution satisfy their defining equations to rounding and singular systems are reported; the SVD factors reproduce the matrix and are orthogonal.",
 "every matrix and dimension", ["src/dmat.cc", "src/smat.cc", "src/svd.cc", "src/svdsol.cc", "src/svdcov.cc"], {"name": "Gaussian elimination with partial pivoting; Golub-Reinsch SVD", "where": "src/dmat.cc, src/svd.cc"})
purep("C29", "Plate-model fitting is least-squares optimal and invertible",
 "The fitted model minimises the residuals within its model class, insufficient data is reported without touching the model, and the inverse model undoes the model.",
 "every sample set", ["src/fitxy.cc", "src/invf.cc", "src/dcmpf.cc", "src/pxy.cc", "src/xy2xy.cc"], {"name": "normal equations", "where": "src/fitxy.cc"})
purep("C30", "Ephemerides are continuous and their velocities are the derivatives",
 "Earth and Moon positions vary smoothly with time, reported velocities equal the time derivative of positions, and independent implementations agree within their documented accuracies.",
 "every date in range", ["src/epv.cc", "src/evp.cc", "src/earth.cc", "src/moon.cc", "src/dmoon.cc", "src/nutc.cc", "src/nutc80.cc"], {"name": "series evaluation with analytic derivatives", "where": "src/epv.cc, src/dmoon.cc"})
purep("C31", "Single- and double-precision twins agree",
 "Each single-precision function returns the double-precision twin's result to single precision, with the same status.",
 "every argument representable in single precision", ["src/cs2c.cc", "src/dcs2c.cc", "src/sep.cc", "src/dsep.cc", "src/s2tp.cc", "src/ds2tp.cc"], {"name": "parallel implementations or delegation", "where": "src/euler.cc"})
purep("C32", "Documented in-place use (output same object as input) gives the same result",
 "Where the documentation allows the output vector or matrix to be the same object as an input, the result equals that of a call with distinct objects.",
 "every argument, every permitted aliasing", ["src/mxm.cc", "src/dmxm.cc", "src/mxv.cc", "src/dmxv.cc", "src/imxv.cc", "src/dimxv.cc", "src/vxv.cc", "src/dvxv.cc", "src/refv.cc"], {"name": "result formed in a local before being stored", "where": "src/dmxm.cc"})
purep("C33", "Angles are normalised into the documented range",
 "Normalised angles lie in the documented half-open range and differ from the input by a whole number of turns.",
 "every finite angle", ["src/range.cc", "src/drange.cc", "src/ranorm.cc", "src/dranrm.cc"], {"name": "fmod and one conditional turn", "where": "src/drange.cc"})

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
