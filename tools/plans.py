"""Which workloads decide which property, time budgets, and what runs real or stubbed."""
ASSUMPTIONS = [
    "The code is compiled from /repo's working tree with g++ and AddressSanitizer against stand-ins for base-types, base-logging, GDAL, ply and numeric, which are not installed here",
    "Calls respect the documented preconditions (no frame cycles, no links across environments, the root stays the root)",
]
REAL = ["all of src/core and src/maps (except PolygonMap), src/tools used by them, 16 operators of src/operators, libyaml, boost::filesystem, boost::mutex, libstdc++ streams"]
STUB = ["base-types (time, pose, point cloud samples)", "base-logging (discarded)", "GDAL raster files (in-memory model writing through the simulated disk)", "ply text reader/writer",
        "heap placement and failure (simulated arena)", "clock", "file system calls (simulated faults, crash images)", "thread scheduling (baton scheduler)"]
PROPS = {
    "C01": {"workloads": [("sync", 1)],
            "search": "histories of changes split into batches, duplicated, relayed and restarted deliveries",
            "note": "Seeded random search; replica compared with source after every delivery; not exhaustive."},
    "C02": {"workloads": [("threads", 1)],
            "search": "thread schedules (preemption at any control-flow edge or lock) and modification histories",
            "note": "Seeded random schedules, preemption between basic blocks of the library, sequentially consistent; weak memory effects are outside."},
    "C03": {"workloads": [("events", 1)],
            "search": "histories of changes, handler registrations, removals, filters and heap placements",
            "note": "Seeded random search with a reference mirror per handler; not exhaustive."},
    "C04": {"workloads": [("roundtrip", 1)],
            "search": "histories of changes, saves over older scenes, loads and further generations, with split file accesses",
            "note": "Seeded random search; the loaded environment is compared completely with the saved one; not exhaustive."},
    "C05": {"workloads": [("diskfaults", 1)],
            "search": "disk failures (full disk, failing create, write, close, rename) at random points of a save",
            "note": "Seeded random faults; every save that reports success is loaded again and compared; not exhaustive."},
    "C06": {"workloads": [("crash", 1)],
            "search": "crash points of a save, torn, lost, mixed-generation and corrupted files and failing reads",
            "note": "Seeded random crash images and damage with full audit of what was loaded; not exhaustive."},
    "C07": {"workloads": [("ids", 1)],
            "search": "histories of attaching, detaching, moving and refused attachments",
            "note": "Seeded random search against a reference model of ids; not exhaustive."},
    "C08": {"workloads": [("ownership", 1)],
            "search": "ownership histories over several environments, with poisoned heap and leak accounting",
            "note": "Seeded random search with exact object accounting; not exhaustive."},
    "C09": {"workloads": [("structure", 1)],
            "search": "structure-changing histories and heap placements",
            "note": "Seeded random search against a reference model of the graph; not exhaustive."},
    "C10": {"workloads": [("transforms", 1)],
            "search": "histories of frame changes and re-parenting",
            "note": "Seeded random search against independent composition; tolerance 1e-6 relative."},
    "C11": {"workloads": [("badevents", 1)],
            "search": "events that are dropped, reordered, repeated, truncated, bit-flipped or forged",
            "note": "Seeded random damage with full audit of the receiver; not exhaustive."},
    "C12": {"workloads": [("codec", 1)],
            "search": "contents, sizes, payload cuts, split and failing disk accesses",
            "note": "Seeded random contents and cuts with exact value comparison; not exhaustive."},
    "C13": {"workloads": [("grids", 1)],
            "search": "histories of patch operations, copies and merges, heap placements and failing allocations",
            "note": "Seeded random search against a model of lists of patches; merged values compared to 1e-4 relative, all others exactly; not exhaustive."},
    "C14": {"workloads": [("oom", 1)],
            "search": "failing allocations (single and lasting) at random points of every operation",
            "note": "Seeded random failure points with full audit after each failure; not exhaustive."},
    "C15": {"workloads": [("operators", 1)],
            "search": "operator wiring histories and updates",
            "note": "Seeded random search against a reference model of the connections; not exhaustive."},
    "C16": {"workloads": [("copies", 1)],
            "search": "histories of copying, changing and destroying origin and copy",
            "note": "Seeded random search comparing complete digests; not exhaustive."},
    "C17": {"workloads": [("context", 1)],
            "search": "histories with lost batches and fresh receivers, immediate and queued",
            "note": "Seeded random search; receivers get one batch only; not exhaustive."},
    "C18": {"workloads": [("gridmaps", 1)],
            "search": "histories of adding, creating, selecting, moving, changing and removing grids with look-ups, copies and replicas in between",
            "note": "Seeded random search; every look-up is compared with a search of all current grids; rotations about z only; look-ups within 1e-7 of a cell border or 1e-4 of the threshold are not judged."},
    "C19": {"workloads": [("mapops", 1)],
            "search": "histories of map, frame and settings changes with operator runs, interrupted runs (failing allocations), saves and loads in between, and heap contents",
            "note": "Seeded random search; every run is compared with a run in a new environment, eleven operators also with a reference; patches within 1e-6 of a cell border are not judged; CGAL based operators cannot be built here."},
}
