"""per property: sizes of the search, and the words for the evidence file (no imports)"""

# (base seeds, fault variants per base seed)
SIZES = {
    'C01': {'quick': (1700, 1), 'thorough': (36000, 2)},
    'C02': {'quick': (800, 8), 'thorough': (16000, 16)},
    'C03': {'quick': (600, 5), 'thorough': (9000, 10)},
    'C04': {'quick': (750, 6), 'thorough': (14000, 10)},
    'C05': {'quick': (520, 4), 'thorough': (8000, 8)},
    'C06': {'quick': (340, 3), 'thorough': (5000, 6)},
    'C07': {'quick': (320, 5), 'thorough': (5000, 10)},
    'C08': {'quick': (400, 8), 'thorough': (8000, 16)},
    'C09': {'quick': (600, 6), 'thorough': (8000, 12)},
    'C10': {'quick': (1500, 1), 'thorough': (30000, 2)},
    'C11': {'quick': (260, 5), 'thorough': (3500, 10)},
    'C12': {'quick': (500, 3), 'thorough': (8000, 6)},
}
COMMON = [
    'the disk is a POSIX file system below a system call shim; a process crash loses nothing the kernel accepted (power loss, i.e. loss of the page cache, is not simulated: hickle promises no fsync)',
    'h5py, HDF5, numpy, scipy, astropy and CPython are real and trusted where no fault was injected into them; HDF5 is not memory safe after its device failed for good, so a process such a fault was injected into is given up afterwards',
    'the hash seed and the address space layout are pinned; every other choice comes from the seed',
]
INFO = {
    'C01': {'rule': 'A case is a seeded history of dumps, loads, opened and closed user handles, foreign data, collections and restarts over several files, streams and paths, run once as it is and again with legal but unusual system call results (short reads and writes, EINTR); every load is compared with the reference model and at the end a new process reads everything back.', 'assumptions': COMMON + ['objects are generated from the types the documentation lists; out of the domain: cyclic objects, h5py/pandas objects, nested Table.meta, SkyCoord beyond ra/dec']},
    'C02': {'rule': 'A case is a dump that is interrupted at one seeded point: in a user callback, in the n-th h5py call, at the n-th source line (KeyboardInterrupt, MemoryError, SystemExit), in the n-th write/truncate/open system call (sticky EIO, ENOSPC, EDQUOT ...) or in the n-th call of a file-like object; then load is tried by the same and by a new process: it may raise or return the complete object, nothing else.', 'assumptions': COMMON},
    'C03': {'rule': 'A case is a history in which seeded operations fail (refused arguments, occupied paths, failing callbacks, h5py calls and loader imports), some of the exceptions being kept alive; afterwards everything stored before, data of the user in the same file, every later operation and the retry of the failed one have to work as if the failure had not happened.', 'assumptions': COMMON},
    'C04': {'rule': 'A case is a history with seeded failures; before and after every call the number of open HDF5 files and descriptors, the state of the garbage collector and of every handle and stream of the user are compared, while the exception is still referenced.', 'assumptions': COMMON + ['descriptors are not counted after an injected device failure']},
    'C05': {'rule': 'A case is a history of dumps followed by loads by every kind of access (name, path object, file object, stream, read-only and writable handle, current and legacy files, with and without the classes), some of them failing at seeded points; the stored content is compared before and after every load.', 'assumptions': COMMON},
    'C06': {'rule': 'A case is a dump and load of an object graph full of shared and of short lived objects, with garbage collections forced at seeded source lines; the graph of identities has to be the one dumped.', 'assumptions': COMMON},
    'C07': {'rule': 'A case is two or three threads dumping and loading, every switch between them decided by the seed (random or priority based, at source lines, sometimes at opcodes, of hickle); threads on files of their own have to see what they would see alone, threads on the same file at worst a refusal, and no run may deadlock.', 'assumptions': COMMON + ['threads are switched between lines (opcodes) of hickle, not inside h5py, which serialises itself by a global lock']},
    'C08': {'rule': 'A case is a process killed at the n-th system call of a dump (with a torn last write) or of a load, or killed with a user handle still open after acknowledged dumps; a new process reads, dumps again and reads again.', 'assumptions': COMMON + ['a file whose update in place was cut off is out of the domain: HDF5 promises nothing for it']},
    'C09': {'rule': 'A case is a load in which the n-th read fails once or for good (file or stream), or which reads a file one bit of whose checksummed payload was flipped; it has to raise or to return the right object, and the next load without fault has to return it.', 'assumptions': COMMON + ['bit rot is only injected into dataset payload stored with fletcher32, the only protection the format offers']},
    'C10': {'rule': 'A case is a file dumped by a process that has the custom classes and loaders, read by a process that lacks the loader or the class; all data has to come back in recovered form, with a warning, and without touching what needs no recovery.', 'assumptions': COMMON},
    'C11': {'rule': 'A case loads files written by hickle 3 and 4 by several access paths, mixed with current files and with objects added to the old files, repeated, with read faults, failing calls, and by threads; content has to be the recorded one, the files unchanged.', 'assumptions': COMMON + ['the legacy files are the ones in the repository; their expected content was recorded once from the pinned commit']},
    'C12': {'rule': 'A case dumps one object in a process after a seeded history (failures, other options, other loaders, legacy files) and in a fresh process and compares everything stored: names, types, attributes, data, filters.', 'assumptions': COMMON},
}
