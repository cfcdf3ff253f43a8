import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,
      'anchors':{'files':files,'state':[dict(zip(('name','meaning','where'),s)) for s in state],'mechanism':[dict(zip(('name','where'),m)) for m in mech],'observe_at':list(observe),'hook_needed':None}})
H='hickle/hickle.py'; L='hickle/lookup.py'; F='hickle/fileio.py'; HE='hickle/helpers.py'
LD=['hickle/loaders/load_builtins.py','hickle/loaders/load_numpy.py','hickle/loaders/load_scipy.py','hickle/loaders/load_astropy.py']
prop('C01','An acknowledged dump reads back equal, whatever else happened',
 'Once dump returns, loading the same path of the same target returns an object equal in type, value, dtype, shape and order to the one dumped, for every object built from the supported types, whatever compression options were used. This holds for every kind of target (file name, path object, open HDF5 file or group, file object, file-like object) and every history of other dumps, loads, collections and process restarts, until the target is overwritten. Legal but unusual results of the operating system (short reads and writes, EINTR) change nothing.',
 ['inputs','histories','fault_sequences'],'all objects over the supported types x all sequences of operations on several targets and paths x all benign I/O results',
 'The tests round-trip a fixed list of hand written objects, one dump and one load per file, in one process, with an obliging kernel; the product of objects, targets, paths, options and histories is unbounded.',
 [H,L,F,HE]+LD,[('dump/_dump and load/_load','hickle/hickle.py'),('loaders for every type','hickle/loaders'),('file_opener for every kind of target','hickle/fileio.py'),('type table and references','hickle/lookup.py ReferenceManager')],
 [('HDF5 file','groups and datasets below the dumped path','file'),('hickle_types_table','types referred to by the stored nodes','file')],['return value of load in the same and in a new process'])
prop('C02','A dump that failed can never be read back as a partial or wrong object',
 'If dump raises or is interrupted at any point (exception in a user callback, failing HDF5 call, KeyboardInterrupt, full or failing disk, failing file-like object), a later load of that path either raises or returns the complete object. It never returns a truncated, mixed or older-and-newer object. A dump that returns normally in spite of such a fault has stored the complete object. Nothing but the object as passed to dump is ever returned.',
 ['fault_sequences','inputs'],'all points at which one dump can be cut off x all objects x all targets',
 'The tests contain a handful of dumps refused up front; none fails in the middle of writing a nested object.',
 [H,L],[('header written after the content','hickle/hickle.py dump'),('removal of what a failed dump left','hickle/hickle.py dump'),('header checked by load','hickle/hickle.py load')],
 [('HICKLE_VERSION, HICKLE_PYTHON_VERSION attributes','mark the group as holding a complete dump','attributes of the dumped group')],['outcome of load after a failed dump'])
prop('C03','A failed or refused operation leaves everything else as it was',
 'A dump or load that raises changes nothing else: every object dumped before to the same or to another file, data of the user in the same file and files open at the time stay intact and readable. Dumps to an occupied path, to files opened read-only, with invalid options or in exclusive mode to an existing file are refused and not acknowledged. Later operations, including the retry of the failed one, behave as if the failure had not happened, even while the exception is still referenced.',
 ['histories','fault_sequences'],'all histories of operations with any subset failing at any call',
 'Tests check that single refused calls raise; they do not look at the rest of the file afterwards nor go on using the process.',
 [H,L,F],[('managers released on failure','hickle/lookup.py BaseManager'),('refusal of occupied groups and closed files','hickle/hickle.py dump, hickle/fileio.py file_opener'),('loader registration','hickle/lookup.py LoaderManager.load_loader')],
 [('active managers','one per open file while dump or load is running','hickle/lookup.py')],['later loads and dumps','foreign datasets and attributes'])
prop('C04','Files opened by a call are closed, the user\'s stay open, gc state is kept',
 'When dump or load returns or raises, every file it opened itself is closed at once, every HDF5 file, group, file object or stream passed in is as open and usable as before, and the garbage collector is enabled or disabled as before. This holds at whatever point the call failed, short of an unrecoverable device failure.',
 ['fault_sequences','histories'],'all calls, all points of failure, collector on or off',
 'Tests look at file handles after a few successful calls; leaks show after failures in the middle, and the collector state only if it was disabled by the caller.',
 [H,F],[('finally clauses of dump and load','hickle/hickle.py'),('close flag','hickle/fileio.py file_opener')],
 [('close flag','whether the file was opened by hickle','hickle/fileio.py')],['open HDF5 files and descriptors, gc.isenabled(), handles of the user'])
prop('C05','Loading never modifies what is stored',
 'load leaves the content of the file, stream or open HDF5 file it reads from exactly as it was: same bytes for files it opens itself and for streams, same groups, datasets, attributes and data for files the user opened for writing. It creates no other files either. This holds whether it succeeds or fails, for current and legacy files, and whether or not the classes stored are available.',
 ['inputs','fault_sequences','configurations'],'all files, access paths and failures of load',
 'No test compares a file before and after load; most open it read-only by name.',
 [H,L,F,'hickle/legacy_v3/hickle.py'],[('files opened for reading only','hickle/hickle.py load'),('type table overlay for hickle 4 files','hickle/lookup.py ReferenceManager')],
 [('hickle_types_table overlay','in memory table for files which have none','hickle/lookup.py')],['bytes of the file, walk over the open HDF5 file'])
prop('C06','Shared objects stay shared and distinct ones distinct, whenever gc runs',
 'If a list, tuple, dict, set or any other object that hickle stores by reference appears in several places of the object dumped, load returns one object in all these places. Objects that merely are equal, or that only exist for a moment while dumping and whose id is reused, are never mixed up. This does not depend on when the garbage collector runs.',
 ['inputs','schedules'],'all object graphs x all points at which a collection may happen',
 'Tests have two or three small graphs and collect whenever CPython happens to; reuse of an id needs a collection or deallocation at one particular point.',
 [H,L]+LD[:2],[('memo of dumped objects','hickle/hickle.py _dump, hickle/lookup.py ReferenceManager'),('reference datasets','hickle/hickle.py _load'),('object kept alive while its id is memoised','hickle/hickle.py _dump')],
 [('memo','id of object to node','hickle/lookup.py ReferenceManager')],['identity structure of the loaded object'])
prop('C07','Threads working on different files behave as if alone',
 'Threads that dump and load different files at the same time get exactly the results each would get alone, for every interleaving, including the first use of a loader and files differing only in their extension. Threads working on one file at the same time are at worst refused by an exception: no load returns anything nobody dumped, no acknowledged dump through a shared open file is lost, nothing deadlocks, and the garbage collector state is as before when all have returned.',
 ['schedules','inputs'],'all interleavings of two or three threads at source line granularity',
 'The test suite is single threaded.',
 [H,L,F],[('tables of managers per file','hickle/lookup.py BaseManager'),('registration of loaders','hickle/lookup.py LoaderManager'),('collector switched off while closing','hickle/hickle.py')],
 [('loader tables','process wide tables of types, loaders and containers','hickle/lookup.py LoaderManager'),('active managers','per open file','hickle/lookup.py')],['results of every thread, a later audit'])
prop('C08','A crash during a dump to a new file leaves it unreadable or complete',
 'If the process dies at any system call of a dump that creates or replaces a file, loading that file afterwards raises or returns the complete new (or, if it was not yet replaced, old) object; other files are untouched, and a new dump to the same name works. A dump that was acknowledged through a file the user holds open survives the death of the process. A process dying while loading damages nothing.',
 ['crash_points','inputs'],'all system calls of a dump or load, with torn last write',
 'Tests never kill a process.',
 [H,F],[('flush before dump returns','hickle/hickle.py'),('order of writing','hickle/hickle.py dump')],
 [('HDF5 file on disk','what the kernel accepted','file')],['load in a new process'])
prop('C09','Read errors and detected corruption surface as errors, never as wrong data',
 'A load during which reading the file or stream fails raises or returns the right object, never a wrong or shortened one; the next load without fault returns the right object. If an object is dumped with fletcher32 and a stored byte of one of its strings, bytes, sets or lists of numbers, numeric or string arrays, masked arrays, sparse matrices, tables or pickled parts is altered, load raises or returns the right object (scalars, arrays of bytes and astropy quantities and times are stored without checksum by design).',
 ['fault_sequences','inputs'],'all read calls of a load x all flipped bits of checksummed payload',
 'Tests read intact files from an intact disk.',
 [H,L]+LD,[('errors of h5py propagate','hickle/hickle.py load, _load'),('dataset options handed on to every payload dataset','hickle/loaders')],
 [],['outcome of load'])
prop('C10','Objects whose class or loader is missing are recovered with all their data',
 'A process that lacks the loader or the class of a custom object still loads the file: everything stored for that object comes back (its data and nested items, with the stored attributes, shared parts still shared), a DataRecoveredWarning is issued, and all other parts of the object are restored exactly. This does not depend on what the process did before or how the file was opened.',
 ['configurations','inputs','histories'],'all nestings of custom objects x missing loader or class x histories',
 'One test recovers one small object.',
 [H,L],[('recovery containers','hickle/lookup.py RecoverGroupContainer, RecoveredGroup, RecoveredDataset, recover_custom_dataset')],
 [],['return value and warnings of load'])
prop('C11','Files written by hickle 3 and 4 load the same by every access path',
 'Files written by hickle 3.x and 4.x load to the same content however they are accessed (name, path, file object, open HDF5 file read-only or writable), any number of times, in any order with other dumps and loads, after failed attempts, and from several threads at a time on different files. They are never modified and their handles never closed or leaked.',
 ['histories','schedules','fault_sequences'],'all histories and interleavings over legacy and current files',
 'Tests load each legacy file once by name.',
 [H,L,'hickle/legacy_v3/hickle.py','hickle/legacy_v3/helpers.py'],[('version dispatch','hickle/hickle.py load'),('overlay type table and lambda fix','hickle/lookup.py')],
 [],['return value of load, bytes of the file'])
prop('C12','What a dump stores does not depend on the history of the process',
 'Dumping an object with given arguments stores the same names, types, attributes, data and filters in any process at any time: after any history of other dumps and loads, failures, other options, custom loaders and legacy files, exactly what a fresh process stores. In particular options and loaders of one call do not leak into another.',
 ['histories','fault_sequences'],'all histories of a process before a dump',
 'Each test starts from the state other tests left and never compares files.',
 [H,L,HE],[('options per file','hickle/lookup.py LoaderManager'),('process wide loader tables','hickle/lookup.py')],
 [('loader tables and options','process wide and per file','hickle/lookup.py')],['walk over both files'])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
M={'version':1,'setup_cmd':'python3 sim/check.py --build','checks':[],'not_applicable':[],
 'notes':'No hooks in /repo: every seam (system calls, h5py calls, loader imports, user callbacks, file-like objects, garbage collection, thread switches, process death) is put around hickle from outside. All commits in /repo are fix: commits.'}
import sys; sys.path.insert(0,'/verif/sim')
import scenario_info
for p in P:
    i=p['id']
    M['checks'].append({'property':i,'quick_cmd':'python3 sim/check.py %s'%i,'thorough_cmd':'python3 sim/check.py %s --tier thorough'%i,
      'technique':'deterministic simulation with fault injection, seeded search, reference model',
      'level':'exploration','level_note':'Seeded search, not exhaustive: a pass means no violation in the runs counted in the evidence. '+scenario_info.INFO[i]['rule']+' Trusts: '+'; '.join(scenario_info.INFO[i]['assumptions'])+'.'})
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
for p in P:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
