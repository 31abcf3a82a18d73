"""Which scenarios decide which property."""
ASSUMPTIONS = [
    "interleavings are sequentially consistent: weak-memory reorderings are not simulated",
    "code without instrumentation (libstdc++, libc, netCDF, HDF5) runs without preemption inside a call",
]
T = {"real": [], "stub": []}
STUB_OS = ["thread scheduling", "clocks and sleeping", "mutexes, rwlocks, condition variables, once", "heap (addresses, reuse, failures)"]


def s(name, binary="full", weight=1):
    return {"name": name, "binary": binary, "weight": weight}


PIPE = ["sensors", "wavegen", "waveq3d", "eigenrays", "eigenverbs", "biverbs", "rvbts", "ocean", "platforms", "managed", "threads", "types", "transmit", "beampatterns"]

PROPS = {
    "C01": {"scenarios": [s("pool-tasks", "core")], "rule": "random pool size, clients, task bodies (throwing, allocating, sleeping, submitting), waits and faults; non-trivial when a task was submitted",
            "real": ["threads"], "stub": STUB_OS},
    "C02": {"scenarios": [s("pool-shutdown", "core")], "rule": "random sequences of submissions, pauses and pool destructions or resets, with thread-creation failures; non-trivial when a pool was destroyed or reset", "real": ["threads"], "stub": STUB_OS},
    "C03": {"scenarios": [s("task-ids", "core")], "rule": "2-5 threads and pool workers create tasks at once; every run is non-trivial", "real": ["threads"], "stub": STUB_OS},
    "C04": {"scenarios": [s("pool-order", "core")], "rule": "1-3 clients submit to a pool of 1-5 threads, some blocked; every run is non-trivial", "real": ["threads"], "stub": STUB_OS},
    "C05": {"scenarios": [s("pool-singleton", "core"), s("manager-singletons")], "rule": "2-5 threads ask for a singleton at once, between resets and creation failures", "real": ["threads"], "stub": STUB_OS},
    "C06": {"scenarios": [s("manager-map", "core")], "rule": "2-4 clients add, remove, find and list 1-3 keys of one manager, with allocation failures; non-trivial with at least two calls", "real": ["managed"], "stub": STUB_OS},
    "C07": {"scenarios": [s("manager-listen", "core")], "rule": "2-4 clients change one manager and register and remove listeners; non-trivial with at least two calls", "real": ["managed"], "stub": STUB_OS},
    "C08": {"scenarios": [s("platform-keys")], "rule": "2-4 clients add platforms with and without keys, remove and find them; non-trivial when a platform was added", "real": ["platforms", "managed", "types"], "stub": STUB_OS},
    "C09": {"scenarios": [s("platform-motion")], "rule": "1-2 clients move hosts, one attaches and detaches children, 1-3 query; non-trivial when a host moved", "real": ["platforms", "managed", "types"], "stub": STUB_OS},
    "C10": {"scenarios": [s("sensor-pairs")], "rule": "1-3 clients add, remove and search 2-6 sensors of random capabilities, groups and keys; non-trivial when a sensor was added", "real": ["sensors", "platforms", "managed", "threads", "types", "beampatterns"], "stub": STUB_OS},
    "C11": {"scenarios": [s("pipeline-mix")], "rule": "2-4 clients add, remove, move, query and reconfigure 1-4 sensors, hosts, frequencies, schedules and oceans while 1-4 workers compute; listeners query; non-trivial when results were published", "real": PIPE, "stub": STUB_OS},
    "C12": {"scenarios": [s("pipeline-settle", weight=2), s("motion-thresholds")], "rule": "1-3 sensors (some on a common host) are added, moved and given transmit schedules by 1-7 clients while the pool computes and frequencies change, or moved step by step around every update threshold, without frequencies at times; non-trivial when results were published", "real": PIPE, "stub": STUB_OS},
    "C13": {"scenarios": [s("pipeline-bits", weight=4), s("shared-products")], "rule": "as C12, with every published product recomputed sequentially; 2-4 threads read a set of products at once; non-trivial when results were published", "real": PIPE, "stub": STUB_OS},
    "C14": {"scenarios": [s("task-abort")], "rule": "1-3 generators of each kind are aborted before or during their work, fail at the n-th call of the environment or the n-th allocation, inline or in a pool; non-trivial when a task was observed", "real": PIPE, "stub": STUB_OS + ["sound speed, scattering and beam models that count calls and fail on request"]},
    "C15": {"scenarios": [s("ocean-register"), s("ocean-tasks", weight=2)], "rule": "2-4 clients update, reset, read and hold the shared ocean; 1-2 sensors compute while another client replaces the ocean, with 0-2 volume layers; non-trivial when an ocean was read or results were published", "real": PIPE, "stub": STUB_OS},
    "C16": {"scenarios": [s("pipeline-remove")], "rule": "as C11 with more removals, ending in removals or manager resets while tasks are queued and running; non-trivial when results were published", "real": PIPE, "stub": STUB_OS},
    "C17": {"scenarios": [s("results-disk")], "rule": "1-3 products of random shape are written while a random disk operation fails; non-trivial when one was written a second time", "real": ["eigenrays", "eigenverbs", "biverbs", "rvbts", "sensors", "types"], "stub": STUB_OS + ["disk: outcomes of open, read, write, sync and close"]},
    "C18": {"scenarios": [s("verbs-readback")], "rule": "eigenverbs are written and read back from healthy, failing, truncated, foreign and damaged files; non-trivial when a read succeeded", "real": ["eigenverbs", "types"], "stub": STUB_OS + ["disk: outcomes of open, read, write, sync and close"]},
    "C19": {"scenarios": [s("environment-load", weight=3), s("ascii-load"), s("basic-ocean")], "rule": "1-3 environment files of random content are loaded from healthy, failing, truncated, rearranged and missing files, ASCII files from several threads at once; non-trivial when one was loaded", "real": ["ocean", "netcdf", "types"], "stub": STUB_OS + ["disk: outcomes of open, read, write, sync and close"]},
    "C20": {"quick_s": 40, "scenarios": [s("wave-log"), s("log-tasks", weight=2)], "rule": "a wavefront is logged step by step to a disk that fails at a random operation, and a background propagation that logs runs among others that do not; non-trivial when a log was closed without error", "real": ["waveq3d", "wavegen", "threads", "ocean", "types"], "stub": STUB_OS + ["disk: outcomes of open, read, write, sync and close"]},
    "C21": {"scenarios": [s("random-streams", "core")], "rule": "1-4 threads draw scalars, vectors and matrices from their own generators, seed, copy and replace them at once; non-trivial when a used generator was seeded", "real": ["ublas"], "stub": STUB_OS},
    "C22": {"scenarios": [s("listeners", "core"), s("wavefront-listeners"), s("wavequeue-listeners")], "rule": "1-3 clients deliver notifications, 1-2 add and remove listeners, listeners remove themselves and others; non-trivial when a notification was delivered", "real": ["managed"], "stub": STUB_OS},
    "C23": {"scenarios": [s("shared-models")], "rule": "2-4 threads ask 1-3 shared immutable models (grids, profiles, boundaries, losses, noise, beam patterns, axes, oceans) at once; non-trivial when a value was compared", "real": ["types", "ocean", "beampatterns", "transmit", "waveq3d"], "stub": STUB_OS},
    "C24": {"scenarios": [s("growing-collections")], "rule": "1-3 threads extend a collection of eigenverbs and one of bistatic eigenverbs, 1-3 list, count and search them, allocations fail; non-trivial when something was read", "real": ["eigenverbs", "biverbs", "types"], "stub": STUB_OS},
    "C25": {"scenarios": [s("sensor-settings")], "rule": "2-4 threads set, reset and read the beams, steerings and transmit schedules of one sensor and the frequencies of the manager, allocations fail; non-trivial when two calls were made", "real": ["sensors", "platforms", "managed", "types", "beampatterns"], "stub": STUB_OS},
}

_PURE = "a pure function of its arguments: no thread, clock, I/O, fault or multi-party behaviour for a simulator to control, so simulation would only repeat ordinary input sampling"
NOT_APPLICABLE = {
    "C30": "interpolation of a constant grid is " + _PURE + " (its use from several threads is decided by C23, its loading by C19)",
    "C31": "ray tracing by one caller is " + _PURE + " (its background execution is covered by C12-C14)",
    "C32": "coordinate conversion is " + _PURE,
    "C33": "a beam level is " + _PURE + " (its use from several threads is decided by C23)",
    "C34": "a loss or scattering strength is " + _PURE + " (file-backed models are covered by C19)",
    "C35": "summing a given list of paths is " + _PURE,
}
