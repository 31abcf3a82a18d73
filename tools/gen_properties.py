#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

p("C01", "Every submitted background task runs exactly once and is accounted for",
  "Every task handed to a running thread pool is executed exactly once, even when other tasks (or it) throw exceptions or run out of memory, and no such failure stops the pool or loses another task. The active-task count always equals the number of tasks that were created and have neither finished nor been discarded unrun. Waiting for completion returns only after every task created before the wait, by any thread, has finished or been discarded, always returns once that is so, and with a time limit either returns or reports the limit exceeded, never before the limit has elapsed.",
  ["schedules","fault_sequences","histories"], "every interleaving of submitting, waiting and worker threads, every pool size, every mix of normal, throwing and memory-starved tasks",
  "threads_test runs one long sequence on the real scheduler with no throwing task and never compares the count with what ran; lost or doubled tasks need a particular interleaving or failure.",
  ["threads/thread_pool.cc","threads/thread_task.h","threads/thread_task.cc","threads/thread_controller.cc"],
  [("task queue pop and push under one mutex","threads/thread_pool.cc worker lambda / run"),("exception trap and active count decrement","threads/thread_task.cc start")],
  ["side effects of task bodies","thread_task::num_active()","thread_task::wait()"])

p("C02", "Pool shutdown and reset always finish and leave nothing running",
  "Destroying a thread pool, or resetting the shared one to a new size, terminates from every state and interleaving: tasks already running finish first, no task body runs after destruction has returned, and tasks that never started are released and no longer counted as active. If a worker thread cannot be created, constructing or resetting a pool reports an exception, leaves no thread behind and leaves the process (and a previously working shared pool) usable.",
  ["schedules","fault_sequences","crash_points"], "every instant at which a pool may be destroyed or reset relative to its workers and queued tasks, and every thread-creation failure",
  "The tests reset the controller only while the pool is idle and never make thread creation fail; a deadlock between the destructor and a worker needs a specific interleaving.",
  ["threads/thread_pool.cc","threads/thread_pool.h","threads/thread_controller.cc","threads/thread_task.h","threads/thread_task.cc"],
  [("running flag and join","threads/thread_pool.cc ~thread_pool"),("pool replacement","threads/thread_controller.cc reset")],
  ["return of ~thread_pool / thread_controller::reset","thread_task::num_active()","side effects of task bodies"])

p("C03", "Task identifiers are unique",
  "Two tasks created in the same process never carry the same identifier, whichever threads create them and however the creations overlap; identifiers created by one thread one after another increase.",
  ["schedules"], "every interleaving of concurrent task creations",
  "No test creates tasks from more than one thread at a time.",
  ["threads/thread_task.cc","threads/thread_task.h"],
  [("atomic identifier counter","threads/thread_task.cc constructor")], ["thread_task::id()"])

p("C04", "Tasks start in submission order, bounded by the pool size, without idling",
  "A pool of N threads starts tasks in the order in which they were submitted, never runs more than N tasks at once, and keeps making use of its threads: a submitted task starts within a bounded time as long as some worker is free, even when other workers are blocked in long-running tasks. Using the pool never changes the relative order of tasks submitted one after another.",
  ["schedules","configurations"], "every interleaving, pool sizes 1..4, tasks that block on one another",
  "Tests observe only that all tasks eventually ran with the default number of threads; order, bound and liveness depend on schedule and configuration.",
  ["threads/thread_pool.cc","threads/thread_pool.h","threads/thread_controller.cc"],
  [("FIFO queue","threads/thread_pool.cc"),("idle worker polls queue","threads/thread_pool.cc worker lambda")],
  ["start order and concurrency of task bodies","simulated time between submission and start"])

p("C05", "Shared singletons are created once under concurrent first use",
  "When any number of threads ask for the shared thread pool, platform manager or sensor manager for the first time at once, all of them receive the same fully constructed instance, until that singleton is reset; a use after a reset yields a fresh, empty, fully usable instance. The shared pool has the number of threads requested by the latest reset.",
  ["schedules","histories"], "every interleaving of concurrent first accesses, and every sequence of resets between them",
  "Tests obtain every singleton from the main thread.",
  ["threads/thread_controller.cc","platforms/platform_manager.cc","sensors/sensor_manager.cc"],
  [("double-checked locking","instance() of the three singletons")], ["pointer returned by instance()","contents seen through it"])

p("C06", "Object managers behave as one atomic map with duplicate rejection",
  "Add, remove, find and list on an object manager, called from any threads, take effect atomically in some order consistent with real time: an add succeeds exactly when the key is absent and otherwise reports a duplicate and changes nothing, as does any call that fails for lack of memory, a remove succeeds exactly when the key is present, a find returns the object currently stored or nothing, and a list is a consistent snapshot ordered by key. An object returned by find or list stays valid as long as the caller holds it, even after removal.",
  ["schedules","histories"], "every concurrent history of operations over few keys",
  "managed_test exercises the manager from one thread only.",
  ["managed/manager_template.h","managed/managed_obj.h","platforms/platform_manager.cc"],
  [("map guarded by a reader/writer lock","managed/manager_template.h")], ["return values of add/remove/find/list"])

p("C07", "Manager listeners hear every change exactly once and in order",
  "Each registered listener of an object manager is told of every successful add and every successful remove exactly once, in the order in which the changes took effect, after the object has been added and before it is removed; failed operations notify nobody, and a listener hears exactly the changes made between its registration and its removal. This holds for changes made concurrently from several threads.",
  ["schedules","histories"], "every interleaving of adds, removes and listener registration",
  "managed_test has one listener, one thread and a handful of operations.",
  ["managed/manager_template.h","managed/manager_listener.h"],
  [("notification while the map is locked","managed/manager_template.h add/remove")], ["calls to notify_add / notify_remove"])

p("C08", "Platforms without a key get a fresh unique key",
  "Adding a platform whose key is zero gives it a key that no other platform of that manager has been added with before, whether assigned automatically or chosen by a caller, under any concurrent mix of automatic and explicit additions; a rejected duplicate leaves both the registered platform and later automatic keys usable; only after the largest representable key has been used are there no further keys to hand out. The key returned by the addition is the one under which the platform is found.",
  ["schedules","histories"], "every concurrent mix of keyed and keyless additions and removals",
  "platforms_test adds from a single thread and never mixes keyed and keyless additions with removals.",
  ["platforms/platform_manager.cc","platforms/platform_manager.h","managed/manager_template.h"],
  [("maximum key tracked under lock","platforms/platform_manager.cc add")], ["key returned by add","platform_manager::find"])

p("C09", "Motion snapshots are never torn and children follow their host",
  "A combined motion query on a platform returns time, position, orientation and speed that all come from one and the same update, however updates and queries interleave. A child's motion always equals its host's motion at one update composed with the child's relative position and orientation, from the moment it is attached until it is detached; a child reports its current host while attached and none once it is detached, and a rejected attachment changes nothing.",
  ["schedules","histories"], "every interleaving of updates, queries, attachments and detachments over small hierarchies",
  "platforms_test moves a hierarchy from one thread and reads it after the move; torn reads need a reader inside an update.",
  ["platforms/platform_model.cc","platforms/platform_model.h"],
  [("one lock around the whole motion state","platforms/platform_model.cc get_motion/update"),("linkage of children","platforms/platform_model.h linkage")],
  ["platform_model::get_motion","platform_model::children","platform_model::host"])

p("C10", "The set of sensor pairs always matches the registered sensors",
  "After any history of adding and removing sensors, the set of pairs is exactly: one monostatic pair for each registered sensor that both transmits and receives and has no minimum range when it is added, and one bistatic pair for each ordered combination of a transmitting and a different receiving sensor of the same non-zero multistatic group. Searches by source or by receiver return exactly the matching pairs, a removed sensor takes all its pairs with it, and a rejected addition (missing frequencies, missing maximum time, duplicate key, or lack of memory) leaves sensors, pairs and searches unchanged.",
  ["histories","schedules","fault_sequences"], "every history of additions, removals and rejected additions over sensors of every kind, from one or several threads",
  "sensors_test builds one fixed set of five sensors, never removes one and never provokes a rejection.",
  ["sensors/sensor_manager.cc","sensors/sensor_manager.h","sensors/sensor_pair.cc"],
  [("source and receiver id lists","sensors/sensor_manager.cc add_sensor/remove_sensor"),("pair removal","sensors/sensor_manager.cc remove_monostatic_pair/remove_multistatic_*")],
  ["sensor_manager::list/find/find_source/find_receiver/find_sensor"])

p("C11", "Sensor and platform operations never deadlock with background work",
  "Any concurrent use of adding, removing, finding, moving and querying sensors and platforms, changing frequencies and transmit schedules, and reading pair results, from several threads while background acoustic tasks run, always completes: no operation blocks forever and all background work drains once callers stop.",
  ["schedules"], "every interleaving of application threads with each other and with the worker threads",
  "Tests drive everything from the main thread and wait for the workers, so opposite lock orders never meet.",
  ["sensors/sensor_manager.cc","sensors/sensor_model.cc","sensors/sensor_pair.cc","platforms/platform_model.cc","platforms/platform_manager.cc","managed/manager_template.h","wavegen/wavefront_notifier.cc"],
  [("lock order between manager, sensor and pair locks","sensors/sensor_manager.cc, sensors/sensor_model.cc, sensors/sensor_pair.cc")],
  ["return of every call","thread_task::num_active() reaching zero"])

p("C12", "Once background work settles, every pair holds results for the latest inputs",
  "When all background work has finished, each sensor pair's direct paths are those of the latest acoustic update of its source or its receiver, its eigenverbs those of the latest acoustic update of the sensor they belong to, and its bistatic eigenverbs and reverberation time series those of the latest eigenverbs and of the last transmit schedule for which an update was asked; never those of an earlier superseded one, and none that should exist is missing. A motion below every update threshold, measured from the motion at the last computation and with angles that wrap around, triggers no new computation, while one above a threshold, a forced update, or the first update of a sensor that gained a pair does; an update that comes while no frequencies are set is made up for by the next one that comes when they are. Pair listeners are notified after the final results are in place.",
  ["schedules","histories"], "every interleaving of updates with queued, running and finishing generators, any number of worker threads",
  "Tests make one update per sensor and wait; superseded results overtaking newer ones need two updates in flight.",
  ["sensors/sensor_model.cc","sensors/sensor_pair.cc","wavegen/wavefront_generator.cc","biverbs/biverb_generator.cc","rvbts/rvbts_generator.cc","wavegen/wavefront_notifier.cc"],
  [("abort of superseded generators","sensors/sensor_model.cc update_internals, sensors/sensor_pair.cc"),("update thresholds","sensors/sensor_model.cc")],
  ["sensor_pair::dirpaths/src_eigenverbs/rcv_eigenverbs/biverbs/rvbts after thread_task::wait()","update_listener<sensor_pair> calls"])

p("C13", "Background results are independent of scheduling",
  "The acoustic products published for a sensor pair (direct paths, eigenverbs, bistatic eigenverbs and reverberation time series) are bit for bit those that a purely sequential computation gives for the same inputs, whatever the number of worker threads, the interleaving of tasks, and other work in progress. Published products, shared oceans and their grids never change once published, and any number of threads may use them at once.",
  ["schedules","configurations"], "every interleaving and pool size; concurrent use of one shared ocean and its grids",
  "Tests compare no result across schedules, and the numerical tests are single-threaded.",
  ["sensors/sensor_pair.cc","wavegen/wavefront_generator.cc","biverbs/biverb_generator.cc","rvbts/rvbts_generator.cc","rvbts/rvbts_collection.cc","types/gen_grid.h","types/data_grid.h","ocean/ocean_model.h","waveq3d/wave_queue.cc","eigenverbs/eigenverb_collection.cc","beampatterns/bp_model.h"],
  [("inputs captured when a task is created","constructors of the generators"),("results shared as pointers to const","eigenray/eigenverb/biverb/rvbts collections")],
  ["collections returned by sensor_pair accessors","values returned by ocean and grid queries"])

p("C14", "Aborted tasks stop promptly, publish nothing and release their memory",
  "A generator told to abort before it starts does no work; one told to abort while it runs stops within a bounded amount of further work; neither publishes any result nor notifies any listener after the abort was requested before it finished computing. Whether aborted, failed by an exception, or completed, a task releases everything it allocated once nobody refers to its results.",
  ["schedules","crash_points","fault_sequences"], "every instant at which an abort or allocation failure can hit a queued or running generator",
  "No test aborts a generator or counts what it leaves allocated.",
  ["wavegen/wavefront_generator.cc","biverbs/biverb_generator.cc","rvbts/rvbts_generator.cc","threads/thread_task.h","threads/thread_task.cc"],
  [("abort flag tested before and during the computation","run() of the three generators")],
  ["listener calls","thread_task::done()","live heap blocks"])

p("C15", "The shared ocean is an atomic register with safe lifetime",
  "Readers of the shared ocean always get an ocean that was current at some moment during their call (or none after a reset), in an order consistent with the updates, and never a partly replaced one. The ocean a reader or a background computation obtained stays usable until it is released, however many updates and resets happen meanwhile, and is destroyed exactly once when the last user lets go, without keeping other users of the shared ocean waiting.",
  ["schedules","histories"], "every interleaving of updates, resets and readers",
  "ocean tests use one thread and never replace an ocean in use.",
  ["ocean/ocean_shared.cc","ocean/ocean_shared.h"],
  [("shared pointer copied under a lock","ocean/ocean_shared.cc")], ["ocean_shared::current()","lifetime of ocean_model objects"])

p("C16", "Removing sensors or resetting managers is safe while tasks are in flight",
  "Sensors may be removed by any thread, and the sensor and platform managers reset while no other thread calls them, at any instant relative to queued, running and finishing background tasks: nothing is used after it has been destroyed, no task crashes or hangs, and no removed pair is resurrected. Once background work has drained and the caller has dropped its own references, removed sensors and pairs have been destroyed.",
  ["schedules","crash_points"], "every instant of removal or reset relative to background work",
  "Tests reset only after waiting for all tasks.",
  ["sensors/sensor_manager.cc","sensors/sensor_pair.cc","sensors/sensor_model.cc","wavegen/wavefront_generator.cc","wavegen/wavefront_notifier.cc","biverbs/biverb_generator.cc","rvbts/rvbts_generator.cc","platforms/platform_manager.cc"],
  [("shared pointers held by tasks","generators"),("listener removal on pair destruction","sensors/sensor_pair.cc")],
  ["memory accesses","thread_task::num_active()","destruction of sensors and pairs"])

p("C17", "A result file that was written without error is complete",
  "Whenever writing eigenrays, eigenverbs, bistatic eigenverbs, reverberation time series or a data grid to a file returns normally, the file is closed, can be read back and contains exactly the data the object held at some instant during the call, under the documented names and units; if the disk fails or fills up at any point, the call reports an exception instead. This includes empty collections, and collections of eigenverbs and bistatic eigenverbs that other threads extend meanwhile. The object being written is left unchanged and usable, and a later attempt under another name on a healthy disk succeeds.",
  ["fault_sequences","schedules","inputs"], "every disk operation of a write failing (no space, I/O error, short or interrupted write), for collections of every shape including empty ones, alone and while they grow",
  "Tests write to a healthy disk and seldom read the file back.",
  ["eigenrays/eigenray_collection.cc","eigenverbs/eigenverb_collection.cc","biverbs/biverb_collection.cc","rvbts/rvbts_collection.cc","types/data_grid.h"],
  [("netCDF file object and its close","write_netcdf of each class")], ["exceptions from write_netcdf","contents of the file through the netCDF library"])

p("C18", "Saved collections read back as the same data",
  "Writing a collection of eigenverbs and reading it back gives an equal collection for every interface and any content, within the precision of the decibels and degrees stored (a power of zero reads back as the smallest stored level). Reading a file that is missing, of a different layout, damaged or truncated, or a disk read that fails, reports an exception, leaves the collection that was read into as it was and leaves no file open.",
  ["fault_sequences","inputs","histories"], "every content, every failing or short read, every truncation of the file",
  "No test calls the reader after the writer.",
  ["eigenverbs/eigenverb_collection.cc","eigenverbs/eigenverb_collection.h"],
  [("variable names shared by reader and writer","eigenverbs/eigenverb_collection.cc read_netcdf/write_netcdf")], ["eigenverb_collection::read_netcdf result","open file descriptors"])

p("C19", "Environment files load exactly or not at all",
  "Loading bathymetry, sound-speed profiles, ocean climatology, bottom provinces or reflection losses from ASCII or netCDF files gives exactly the data in the file: the requested region of it, scaled and offset by the attributes of the file, ordered and interpolated as documented, with missing values filled from valid ones. A file that is missing, unreadable, of another layout or shorter than it says, and a disk read that fails, is reported by an exception, never by a silently shortened, zeroed or altered data set, and no file is left open. An ocean built from the databases is shared only when all of them were loaded, otherwise the shared ocean stays as it was. ASCII files may be loaded by several threads at once.",
  ["fault_sequences","inputs","schedules"], "every content, region and attribute, every failing or short read, every truncation that the format can reveal, missing files; concurrent ASCII loads",
  "Tests load intact files from a healthy disk on one thread.",
  ["ocean/ascii_arc_bathy.cc","ocean/ascii_profile.cc","netcdf/netcdf_bathy.cc","netcdf/netcdf_profile.cc","netcdf/netcdf_woa.cc","netcdf/netcdf_coards.h","ocean/reflect_loss_netcdf.cc","ocean/ocean_utils.cc","ocean/data_grid_mackenzie.h"],
  [("stream extraction and netCDF reads in constructors","constructors of the loader classes")], ["grid contents after construction","exceptions from constructors"])

p("C20", "Wavefront log files record every step completely or report failure",
  "A wavefront log that is opened, written once per propagation step and closed without any of these calls reporting an error describes the frequencies and launch angles used and holds exactly one record per save, with the time, positions and counters of that step. If the disk fails or fills up, one of these calls reports it by an exception, and the propagation itself gives the same results as without a log. A background propagation whose log fails publishes nothing and ends without crashing, hanging or affecting other tasks.",
  ["fault_sequences","inputs","schedules"], "every failing disk operation during logging, and every number of steps",
  "wave queue tests write logs to a healthy disk and never read them in C++.",
  ["waveq3d/wave_queue_netcdf.cc","waveq3d/wave_queue.h","wavegen/wavefront_generator.cc"],
  [("record counter and netCDF variables","waveq3d/wave_queue_netcdf.cc")], ["contents of the log file","exceptions","thread_task::num_active()"])

p("C21", "Random number streams depend only on their seed",
  "After seeding, a generator's sequence of uniform, Gaussian and complex Gaussian values depends only on the seed and the calls made since, not on what the generator did before seeding, and not on what other generators or threads do meanwhile; generators seeded alike, and copies, give equal streams, and filling vectors and matrices (row by row) gives the same values as drawing one by one.",
  ["histories","schedules"], "every history of draws before seeding and every interleaving of independent generators in several threads",
  "randgen tests check statistics of one stream from one thread.",
  ["ublas/randgen.h","ublas/randgen.cc"],
  [("engine and distribution state per object","ublas/randgen.h")], ["values returned by randgen"])

p("C22", "Update listeners can come and go while notifications are delivered",
  "Listeners may be added to and removed from platforms, sensors, sensor pairs, generators and propagating wavefronts from any thread while other threads deliver notifications: every listener registered throughout a notification is called exactly once for it, a listener whose removal has returned is never called again, a listener that removes itself while being called is called no more, and nothing is lost, duplicated or corrupted.",
  ["schedules","histories"], "every interleaving of registration, removal and delivery",
  "Tests register listeners before any notification and never remove them concurrently.",
  ["managed/update_notifier.h","wavegen/wavefront_notifier.cc","wavegen/wavefront_notifier.h","eigenrays/eigenray_notifier.cc","eigenverbs/eigenverb_notifier.cc","waveq3d/reflection_notifier.cc"],
  [("set of listeners","managed/update_notifier.h, wavegen/wavefront_notifier.cc")], ["calls received by listeners"])

p("C23", "Immutable models may be shared by any number of threads",
  "Grids, axes, profiles, boundaries, reflection losses, scattering, volumes, ambient noise, beam patterns, transmissions and whole oceans give every caller exactly the value they give when asked alone, whatever other threads ask of the same object at the same time, whatever was asked before, and whatever the output arguments held before the call; they need nothing from their creator once constructed.",
  ["schedules","histories"], "every interleaving of queries from several threads, every model and configuration",
  "The unit tests query every model from one thread, with outputs that start as zero and with arguments that outlive the model.",
  ["types/gen_grid.h","types/data_grid_svp.h","types/data_grid_bathy.h","types/seq_vector.h","ocean/profile_grid.h","ocean/boundary_slope.cc","ocean/boundary_grid.h","ocean/reflect_loss_rayleigh.cc","ocean/ambient_wenz.cc","ocean/ocean_model.h","beampatterns/bp_model.cc","transmit/transmit_model.h"],
  [("no state is written by const member functions","query functions of each model")], ["values returned by the query functions"])

p("C24", "Collections can be listed and searched while they are filled",
  "Eigenverb and bistatic eigenverb collections may be extended by some threads while others list, count and search them: every element whose addition has returned is in each later listing of its interface exactly once, an element that was listed once stays listed, nothing appears that was not added, a count lies between the additions completed and begun, bistatic eigenverbs are listed by travel time and equal those the pair of eigenverbs gives alone, and a search returns what a search of the same elements gives when nothing else is going on, namely the eigenverbs inside of the area around the given one. An addition that fails for lack of memory changes nothing.",
  ["schedules","inputs","fault_sequences"], "every interleaving of additions, listings, counts and searches, any place on earth, allocation failures",
  "Tests fill a collection from one thread and list it afterwards; searches are tested at one place.",
  ["eigenverbs/eigenverb_collection.cc","eigenverbs/eigenverb_collection.h","biverbs/biverb_collection.cc","biverbs/biverb_collection.h"],
  [("reader/writer lock around the spatial index","eigenverbs/eigenverb_collection.cc"),("reader/writer lock around the map by travel time","biverbs/biverb_collection.cc")], ["eigenverbs(), find_eigenverbs(), biverbs(), size()"])

p("C25", "Settings of a sensor read back as they were last set",
  "Source and receiver beam patterns, receiver steerings and the transmit schedule of a sensor, and the frequencies of the sensor manager, may be set, reset and read by any number of threads at once: all calls take effect one after another in some order consistent with real time, keys list exactly the beams present in ascending order, counts and capability queries agree with them, a steering or schedule is never a mixture of several, and a call that fails for lack of memory changes nothing.",
  ["schedules","histories","fault_sequences"], "every interleaving of setters, resets and getters over few keys, allocation failures",
  "Tests configure sensors from one thread before use.",
  ["sensors/sensor_model.cc","sensors/sensor_model.h","sensors/sensor_manager.cc","sensors/sensor_manager.h"],
  [("reader/writer lock around the maps of beams","sensors/sensor_model.cc"),("frequencies under the manager's lock","sensors/sensor_manager.cc")], ["src_beam, rcv_beam, rcv_steering, src_keys, rcv_keys, transmit_schedule, frequencies"])

NA_WHY="Needs all inputs; unit tests sample a few points. It has no schedule, clock, I/O or fault in it."
p("C30", "Interpolated ocean data honours its grid",
  "Interpolating any gridded environmental data returns the stored value at every grid point, stays within the bounds implied by the interpolation method between them, clips or extrapolates outside the grid as configured, and reports derivatives consistent with the values.",
  ["inputs","configurations"], "every grid, interpolation type and location", NA_WHY,
  ["types/gen_grid.h","types/data_grid_svp.h","types/data_grid_bathy.h"], [("per-dimension interpolation","types/gen_grid.h")], ["interpolate()"])
p("C31", "Ray propagation obeys the ocean's physics",
  "Rays traced through any ocean conserve Snell's invariant where the environment does not vary horizontally, reflect at boundaries with equal grazing angles and the boundary's loss, count every bounce and caustic once, and agree with analytic travel times within the integrator's tolerance.",
  ["inputs","configurations"], "every ocean, launch fan and time step", NA_WHY,
  ["waveq3d/wave_queue.cc","waveq3d/ode_integ.cc","waveq3d/reflection_model.cc"], [("Adams-Bashforth integration","waveq3d/ode_integ.cc")], ["wave_front state"])
p("C32", "Earth and body coordinate conversions round-trip",
  "Converting positions and directions between geographic, spherical, cartesian and body-relative frames and back gives the original within rounding, for every location, and rotations preserve lengths and angles.",
  ["inputs"], "every position, direction and orientation", NA_WHY,
  ["types/wposition.cc","types/wposition1.cc","types/wvector.cc","types/wvector1.cc","types/orientation.cc","types/bvector.h"], [("spherical earth conversions","types/wposition1.cc")], ["latitude/longitude/altitude, orientation::rotation"])
p("C33", "Beam patterns are bounded, steered and reciprocal",
  "Every beam pattern's level lies between zero and one for all arrival directions and frequencies, is greatest in the steered direction, and has the directivity index implied by its shape.",
  ["inputs"], "every pattern, direction, steering and frequency", NA_WHY,
  ["beampatterns/bp_model.h","beampatterns/bp_line.cc","beampatterns/bp_grid.cc"], [("beam_level computations","beampatterns/*.cc")], ["beam_level, directivity"])
p("C34", "Losses, attenuation and scattering are physical",
  "Boundary reflection and volume attenuation never amplify, scattering strengths are finite and non-negative, and all depend continuously and only on frequency, angle and location.",
  ["inputs"], "every frequency, angle and location", NA_WHY,
  ["ocean/reflect_loss_rayleigh.cc","ocean/attenuation_thorp.cc","ocean/scattering_lambert.h"], [("closed formulas","ocean/*.cc")], ["reflect_loss, attenuation, scattering results"])
p("C35", "Combined eigenray levels follow the paths they sum",
  "The combined level reported for a target is the coherent or incoherent power sum of its paths, with a travel time inside theirs, and bistatic reverberation power follows the overlap of the two beams regardless of which of them is called first.",
  ["inputs"], "every set of paths and beam geometries", NA_WHY,
  ["eigenrays/eigenray_collection.cc","biverbs/biverb_collection.cc"], [("summation over paths","eigenrays/eigenray_collection.cc sum_eigenrays"),("Gaussian overlap","biverbs/biverb_collection.cc add_biverb")], ["eigenray totals","biverb power"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
