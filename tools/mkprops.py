import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
                   **({'observe_at':observe} if observe else {}), hook_needed=None)))
D='src/Distributed/'
NT='No test touches it: src/Distributed is not even compiled by the test build, and '
p('C01','TCP store operations are linearizable',
 'Concurrent clients of a TCP key-value store (set, get, add, check, delete, key count) observe results consistent with the operations having been applied one at a time, each between its call and its return, to a single map; values are returned whole and byte-exact for any key and value bytes and sizes, and every add takes effect exactly once. This holds under message delay, fragmentation, partial and interrupted transfers and stalled processes. A request whose client dies midway is applied entirely or not at all.',
 ['schedules','histories','fault_sequences'],'every interleaving of client and server threads, every split and delay of the byte streams, every history of operations by several clients, with stalls (SIGSTOP/SIGCONT), EINTR, EAGAIN and client crashes',
 NT+'an interleaving of handler threads or a split of a length prefix is chosen by the kernel, not by a test.',
 [D+'TCPStore.cpp',D+'TCPStore.h',D+'Store.cpp'],
 [('length-prefixed request/response framing',D+'TCPStore.cpp sendBytes/recvBytes'),('one mutex around the map in each command handler',D+'TCPStore.cpp handle*Command')],
 [('keyValueStore_','the map',D+'TCPStore.cpp ServerImpl')],['TCPStore public methods'])
p('C02','TCP store blocking get and wait never miss a key and time out correctly',
 'A get or wait that blocks on the TCP store returns successfully once every key it asked for exists at the same moment and keeps existing, within bounded time after faults stop, no matter which other operations (including deletes and re-creations) ran meanwhile. If the keys do not come to exist it fails no earlier than the configured timeout and within a bounded time after it, and never reports success for keys that were never all present. After a timed-out get or wait the same client can go on using the store.',
 ['schedules','histories','fault_sequences'],'every placement of set/add/delete relative to the registration, sleep and wake-up of any number of waiters on one or many keys; any timeout incl. none; stalls and delays',
 NT+'a lost wake-up needs one precise interleaving of two handler threads.',
 [D+'TCPStore.cpp'],[('per-key condition variables registered under the map mutex',D+'TCPStore.cpp handleGetCommand/handleWaitCommand'),('notification in set and add',D+'TCPStore.cpp')],
 [('keyCVs_','waiters per key',D+'TCPStore.cpp ServerImpl')],['TCPStore::get, TCPStore::wait'])
p('C03','A failing TCP store client never disturbs the others',
 'When a client of the TCP store crashes, resets its connection, is cut off, or stops in the middle of a request or while blocked, every other client keeps receiving exactly its own replies on a connection that stays open, and new clients can still connect, however many clients have come and gone. Nothing is ever written to, read from or closed on a connection that belongs to a different client than the one being served.',
 ['crash_points','schedules','fault_sequences'],'every byte position and instant at which a client dies, every order of handler exit, liveness sweep and accept (descriptor reuse), any number of connects over the life of the server, failing accept calls',
 NT+'descriptor reuse needs a disconnect, a sweep and an accept in one order.',
 [D+'TCPStore.cpp'],[('one handler thread per connection, which owns and closes the socket',D+'TCPStore.cpp handleClientInThread'),('monitor sweep of dead connections',D+'TCPStore.cpp cleanupDisconnectedClients')],
 [('activeClients_','open client descriptors',D+'TCPStore.cpp ServerImpl')],['TCPStore client results; the simulated socket layer'])
p('C04','TCP store rendezvous waits for exactly the expected workers',
 'A store server asked to wait for N workers returns from construction as soon as N workers (itself included) are connected and registered and not before, or reports failure once its timeout has passed without that; workers that have left or died meanwhile do not count. Workers may start in any order and before the server listens, as long as it appears within their connection-retry period, and every worker ends up connected and usable.',
 ['schedules','crash_points','configurations'],'every start order and delay of N processes, crashes and restarts of workers during the rendezvous, refused connects, slow links, any N and timeout',
 NT+'it needs several processes with controlled start times and crashes.',
 [D+'TCPStore.cpp'],[('worker registration counter and condition variable',D+'TCPStore.cpp waitForWorkers/handleWorkerRegister/handleWorkerUnregister'),('connect retry loop',D+'TCPStore.cpp ClientImpl::connect')],
 [('registeredWorkers_','workers registered now',D+'TCPStore.cpp ServerImpl')],['TCPStore constructor return time'])
p('C05','TCP store shutdown is clean and the address is reusable',
 'Destroying a store at any moment returns within bounded time, makes blocked requests of remaining clients fail instead of hang, leaves no background activity that touches freed memory or other descriptors, leaks no descriptor, and frees its address so that a new server on the same port serves a fresh, empty store. A server that cannot start (port taken, socket call failing) is reported and can be destroyed and used without crashing the process.',
 ['schedules','crash_points','fault_sequences','histories'],'every instant of destruction relative to accepts, handlers, waiters and the monitor; repeated create/destroy cycles; failing socket, setsockopt, bind, listen, accept',
 NT+'use after free in a detached thread depends on which thread runs last.',
 [D+'TCPStore.cpp'],[('shutdown flag, waking of waiters, closing of the listening socket',D+'TCPStore.cpp ServerImpl::~ServerImpl'),('start failure paths',D+'TCPStore.cpp ServerImpl::start')],None,['~TCPStore; simulated heap, descriptors and threads'])
p('C06','File store operations are linearizable across processes',
 'Processes and threads sharing a file store directory observe set, get, add, check, delete, key count, wait results consistent with the operations having been applied one at a time to a single map: no add is lost or applied twice, a key exists exactly from its set or add until its delete, and a value is always returned whole. A blocking get or wait returns within bounded time once its keys exist, and otherwise fails no earlier than the timeout and within a bounded time after it.',
 ['schedules','histories'],'every interleaving of file-system calls of several processes and of threads of one process; any history of operations; any values and value sizes',
 NT+'two processes have to interleave inside one read-modify-write.',
 [D+'FileStore.cpp',D+'FileStore.h'],[('advisory file locking around each operation',D+'FileStore.cpp FileLock'),('polling loops',D+'FileStore.cpp get/wait')],None,['FileStore public methods; the simulated file system'])
p('C07','File store updates are atomic under crashes and disk errors',
 'If a process dies at any instant inside a file store operation, or a disk operation fails (disk full, I/O error, short write, interrupted call), every later read of the key yields the complete old value or the complete new value, never an empty, truncated or mixed one, and the survivors are neither blocked nor confused about which keys exist. An operation that fails does not report a result it did not achieve.',
 ['crash_points','fault_sequences'],'a crash before or after every file-system call of every operation, and every file-system call failing with each errno it can fail with',
 NT+'nothing injects a crash or a full disk.',
 [D+'FileStore.cpp'],[('writing of the value file',D+'FileStore.cpp set/add'),('locks released by the kernel on death',D+'FileStore.cpp FileLock')],None,['FileStore public methods after the fault; the simulated file system'])
p('C08','Process group initialisation agrees on one group or reports failure',
 'When all ranks initialise a process group over env, tcp or file rendezvous, in any start order, each gets its own rank and the common world size, and all ranks join the same communicator, whose identifier rank 0 generated. If the rendezvous cannot succeed (missing or dead peer, unreachable master, invalid settings) initialisation or the first collective reports failure within a bound set by the configured timeout (plus the fixed number of connection attempts) and the group is left uninitialised or cleanly unusable, not hung or crashed.',
 ['schedules','crash_points','configurations'],'every start order, delay and crash of ranks; env, tcp and file methods; any world size; any timeout; unusable settings',
 NT+'it needs several ranks starting in different orders.',
 [D+'DistributedProcessGroup.cpp',D+'DistributedProcessGroup.h',D+'ProcessGroup.cpp',D+'BackendNCCL.cpp'],
 [('init string parsing and store creation',D+'DistributedProcessGroup.cpp'),('unique-id exchange through the store',D+'BackendNCCL.cpp getNCCLComm')],None,['initProcessGroup, isInitialized, getRank, getWorldSize; the simulated collective library'])
p('C09','Collectives deliver the defined result on every rank',
 'Broadcast, all-reduce, reduce, all-gather, reduce-scatter, send and receive give every participating rank exactly the mathematically defined result (for each reduction operator and element type) once the returned work has been waited for, and later work on the same device observes it, for every interleaving of host threads, compute streams and communication streams. Inputs written by earlier device work are seen, and no buffer is released or reused while an operation still uses it.',
 ['schedules','inputs','programs'],'every relative progress of host, compute stream and communication stream on every rank; sequences of mixed collectives; all operators and element types; asynchronous and synchronous waiting',
 NT+'no GPU or NCCL is available; a missing stream dependency shows only when one stream lags.',
 [D+'BackendNCCL.cpp',D+'BackendNCCL.h',D+'WorkNCCL.cpp',D+'ProcessGroup.cpp','src/Utils/CUDAUtils.cpp','src/Utils/CUDAUtils.h'],
 [('stream ordering by events',D+'BackendNCCL.h collective; '+D+'WorkNCCL.cpp synchronize'),('operator and type mapping',D+'BackendNCCL.cpp')],None,['collective outputs on every rank'])
p('C10','A barrier releases no rank before all ranks have entered',
 'When a synchronous barrier returns on some rank, every rank of the group has called that barrier, whatever the speed of hosts and devices; when all ranks have called it, it returns on all of them within bounded time.',
 ['schedules'],'every stall and relative speed of the ranks and their devices; repeated barriers mixed with other collectives',
 NT+'an early release shows only when some rank is slow.',
 [D+'DistributedProcessGroup.h',D+'BackendNCCL.cpp',D+'WorkNCCL.cpp'],[('barrier as an all-reduce plus host synchronisation',D+'BackendNCCL.cpp barrier; '+D+'WorkNCCL.cpp wait')],None,['return times of barrier()'])
p('C11','Collective failures and timeouts are reported, not hung or hidden',
 'If a collective cannot complete because a peer is dead or stalled, the communication library reports an error, or the store is lost, then the call or a wait with a timeout reports failure within the timeout, never success, and the process is neither crashed nor deadlocked. After that the group can be aborted, shut down or destroyed in bounded time, and a work that did complete is never reported as failed.',
 ['fault_sequences','schedules','crash_points'],'every error return of the communication library at every call, a peer dying or stalling before or during any collective, any timeout',
 NT+'error returns of the communication library have never been produced.',
 [D+'BackendNCCL.cpp',D+'BackendNCCL.h',D+'WorkNCCL.cpp',D+'NCCLUtils.h',D+'Work.h'],[('error state and NCCL_CALL checks',D+'BackendNCCL.h'),('polling wait with timeout',D+'WorkNCCL.cpp')],None,['return values of collectives, Work::wait, getError'])
p('C12','Waiting on a work handle never misses its completion',
 'Any number of threads waiting on an asynchronous work handle, with or without a timeout, return once it is finished, all of them, with success exactly if it finished without an exception, and the exception text and completion flag they then read are the final ones. A wait never returns before completion unless its timeout has elapsed.',
 ['schedules'],'every interleaving of one finishing thread and several waiting, polling and timing-out threads, with spurious wake-ups',
 NT+'a lost notification needs one precise interleaving.',
 [D+'Work.h'],[('mutex and condition variable of the handle',D+'Work.h wait/finish')],None,['Work::wait, isCompleted, isSuccess, exception'])
p('C13','Data-parallel training keeps replicas identical and equal to one process',
 'For modules whose trainable parameters all take part in the loss: wrapping a module for distributed training first makes all ranks hold the root rank\'s parameters; after every backward pass, every rank\'s gradients equal the average over ranks of the gradients their local batches give, so replicas that take the same optimiser steps keep bitwise identical parameters and match single-process training on the combined batch to rounding. This holds for every gradient-bucket size, world size and number of iterations, under every interleaving of ranks and streams.',
 ['schedules','configurations','programs'],'every speed of ranks and streams; bucket capacities from one byte to unlimited; model shapes; iterations; gradient zeroing patterns',
 NT+'it needs several ranks with devices.',
 [D+'Reducer.cpp',D+'DistributedModule.cpp','src/Tensor/AutogradMeta.cpp','src/Tensor/AutogradHook.h'],[('bucketed all-reduce launched from gradient hooks',D+'Reducer.cpp'),('initial broadcast',D+'DistributedModule.cpp')],None,['parameters and gradients on every rank'])
p('C14','Distributed sampling covers the dataset exactly and reproducibly',
 'For every dataset size, number of replicas, seed and epoch, the shards the ranks compute independently have equal size, together contain every index (with drop-last: no index twice and fewer than the number of replicas missing) with only the minimal padding, and are valid indices. They depend only on seed and epoch: a rank that crashes and restarts, starts later, runs other random work in between, or sees different entropy computes the same shard again.',
 ['configurations','crash_points','histories'],'all dataset sizes and world sizes, seeds and epochs; crash and restart of ranks at any epoch; any entropy and any interleaving with other users of the random generator',
 'No test touches the sampler (not compiled by the test build); agreement between ranks with different histories and entropy cannot be sampled by one process.',
 [D+'DistributedSampler.cpp',D+'DistributedSampler.h'],[('seeding of the generator with seed+epoch and padding/truncation',D+'DistributedSampler.cpp generateIndices')],None,['DistributedSampler::indices on all ranks'])
p('C15','The data loader delivers every sample exactly once per pass',
 'Iterating a data loader yields, for every dataset size, batch size, sampler, shuffle and drop-last setting and any entropy, each index of the sampler (or of the dataset) exactly once, in batches of the configured size except a smaller last one (absent with drop-last), numbered consecutively, with each sample\'s tensors stacked in order. Epoch-seeded samplers give the same order for the same seed and epoch in every process and after any restart.',
 ['configurations','histories'],'all sizes, batch sizes, flags, seeds, epochs and entropy sequences; restarts; iteration repeated or abandoned midway and restarted',
 'The test suite has no data-loading test; the shuffled order comes from operating-system entropy.',
 ['src/Data/DataLoader.h','src/Data/Sampler.h','src/Utils/RandomGenerator.h'],[('index permutation and batching','src/Data/DataLoader.h'),('epoch seeding','src/Data/Sampler.h')],None,['DataLoader iteration, RandomSampler::indices'])
p('C16','Saving a model reports success only for a complete checkpoint',
 'If saving a model returns true, the file holds the complete state: loading it into a module of the same structure returns true and restores every parameter and buffer bit-exactly. If any file-system call during the save fails (cannot open, disk full, I/O error, short write), save returns false, and it never crashes.',
 ['fault_sequences','inputs'],'every file-system call failing at every point, short and interrupted writes, any model size from empty to many megabytes',
 'The test suite has no serialisation test and cannot make the disk fail.',
 ['src/Serializer.cpp','src/Serializer.h'],[('stream writes','src/Serializer.cpp Serializer::save')],None,['Serializer::save return value; Serializer::load of the result'])
p('C17','Loading rejects damaged checkpoints without crashing',
 'Loading a checkpoint that a crash cut short at any byte, that a fault left empty, overwritten or bit-flipped in its structure, or that cannot be read, never crashes or reads outside the file; it returns true only if every tensor the module needs (strict: exactly the module\'s tensors; non-strict: those present) was taken, with matching name, shape and type, from complete data inside the file. A strict load that returns true leaves no tensor holding anything but its saved value.',
 ['crash_points','fault_sequences','inputs'],'a crash at every write of a save, every truncation length, every corruption of the structural part of the file, every failure of open/stat/map',
 'The test suite has no serialisation test; damaged files are unbounded in number.',
 ['src/Serializer.cpp','src/Utils/MMapUtils.cpp'],[('header checks and bounds checks','src/Serializer.cpp Serializer::load'),('mapping','src/Utils/MMapUtils.cpp')],None,['Serializer::load'])
p('C18','Training resumed from a checkpoint equals uninterrupted training',
 'A training process that is killed at any instant and restarted from its last acknowledged checkpoint, with its samplers set to the checkpoint\'s epoch, continues exactly as if it had never been interrupted: the parameters after each later epoch are bitwise identical to those of an uninterrupted run (for optimisers without state). Nothing carried over in the process, entropy or memory of the machine influences the result.',
 ['crash_points','histories','programs'],'a crash at any instant incl. inside a save, any number of crashes and restarts, any model and data',
 'No test restarts anything.',
 ['src/Serializer.cpp','src/Data/Sampler.h','src/Data/DataLoader.h','src/Optimizer.cpp','src/Utils/RandomGenerator.h'],[('save/load of all module state','src/Serializer.cpp; src/Module/Module.h'),('epoch-seeded sampling','src/Data/Sampler.h')],None,['parameters after each epoch'])
p('C19','The MNIST dataset never presents data that was not read',
 'Whatever happens to its files (missing, truncated at any byte, shrunk or failing while being read, short reads), constructing the dataset either presents exactly the samples that are completely in the files, with their true pixels and labels, or no samples; it never presents invented, stale or uninitialised data and never crashes.',
 ['fault_sequences','inputs'],'every truncation length, every failing or short read, any header counts consistent with the format',
 'No test touches it, and no test makes a read fail.',
 ['src/Data/DatasetMNIST.cpp'],[('stream reads','src/Data/DatasetMNIST.cpp loadImages/loadLabels')],None,['DatasetMNIST::size, getItem'])
p('C20','The caching allocator stays consistent under allocation failures',
 'Blocks handed out by the caching allocator are aligned, at least as large as requested, never overlap a live block, stay inside memory currently owned from the system, and keep their contents until freed, for every sequence of allocations and frees. If the system refuses memory at any point the allocator first gives back its cached memory and retries, and only then fails that one request, leaving all live blocks and later requests unaffected; everything is returned to the system when it is destroyed.',
 ['histories','fault_sequences'],'every sequence of sizes and frees around the pooling and splitting thresholds, with the base allocation failing at any point and for any length of time',
 'Tests use the allocator incidentally and never see an allocation fail.',
 ['src/Tensor/CachedAllocator.cpp','src/Tensor/CachedAllocator.h','src/Tensor/Storage.cpp'],[('block splitting, merging and pools','src/Tensor/CachedAllocator.cpp'),('retry after releasing caches','src/Tensor/CachedAllocator.cpp mallocImpl')],None,['allocate/deallocate of the public allocator over a simulated base allocator'])
p('C21','Results do not depend on entropy, memory contents or addresses',
 'A program that sets the random seed computes bitwise identical results in every execution, whatever entropy the system supplies, whatever recycled or uninitialised memory contains, wherever allocations land and whether caching is on; it never reads memory it has not written or does not own. Consecutive random fills after seeding are different draws, and draws continue one reproducible sequence.',
 ['programs','fault_sequences','histories'],'randomly generated tensor, autograd, module and optimiser programs, each run under different entropy, heap contents, heap layouts and allocator histories',
 'A test runs in one process with one heap; freshly mapped memory is zero and hides missing initialisation.',
 ['src/Utils/RandomGenerator.cpp','src/Utils/RandomGenerator.h','src/Operation/OpFillingCpu.h','src/Operation/OpFillingCpu.cpp','src/Operation/OpSamplingCpu.h','src/Tensor/Storage.cpp','src/Tensor/TensorImpl.cpp','src/Initializer.cpp'],[('one seedable generator','src/Utils/RandomGenerator.h'),('initialisation of outputs and accumulators','src/Operation/*')],None,['all tensor values a program computes'])
p('C22','Gradient mode is per thread and correctly scoped',
 'Disabling gradient recording in one thread affects only that thread and only until the guard\'s scope ends, restoring the previous state for any nesting; other threads, including ones started meanwhile, keep recording. Operations run with recording disabled compute the same values, give results that do not require gradients and leave their inputs unchanged. Hence a thread\'s results, gradients and requires-grad flags never depend on what other threads and their guards do.',
 ['schedules','programs'],'every interleaving of several threads entering and leaving nested guards and building graphs on their own tensors',
 'All tests are single-threaded.',
 ['src/Tensor/NoGradGuard.h','src/Tensor/NoGradGuard.cpp','src/Tensor/Function.h'],[('thread-local flag saved and restored by the guard','src/Tensor/NoGradGuard.h')],None,['isGradEnabled; requiresGrad of results'])
p('C23','Concurrent log messages are delivered whole, once and in order',
 'Every log message at or above the minimum level is delivered exactly once, complete and unmixed with other messages, to the installed sink (or the standard stream), messages of one thread in program order, under any interleaving of logging threads and for any message length (cut only at the documented buffer limit). Messages below the level are not delivered.',
 ['schedules','inputs'],'every interleaving of several logging threads; message lengths up to several times the buffer; short writes to the stream',
 'No test logs from two threads.',
 ['src/Utils/Logger.cpp','src/Utils/Logger.h'],[('mutex around the shared format buffer','src/Utils/Logger.cpp Logger::log')],None,['installed log function; standard output'])
p('C24','Operations on a device give the CPU\'s results under every kernel schedule',
 'An operation, layer, loss, backward pass or optimiser step on a CUDA device gives the same result as on the CPU (up to rounding; index results up to equal values; shapes and element types exactly) for every size (also beyond 65535 rows or batches), for every order in which the blocks, warps and threads of its kernels run and streams make progress, and whatever device memory contained before. Kernels access only live device memory and reach their barriers together. Seeded random fills and samples on the device depend only on the seed and the draws since seeding, and successive draws do not repeat numbers of earlier ones.',
 ['schedules','programs','inputs'],'every order and interleaving of the blocks, warps and threads of each kernel, lagging streams, recycled device memory; randomly generated tensor programs over all element types, with shapes around warp, block and tile boundaries',
 'The tests run on the CPU only (no device here); even on a device, a race between blocks or a missing barrier shows only on some schedules.',
 ['src/Operation/OpReduceCuda.cu','src/Operation/OpReduceCuda.cuh','src/Operation/OpElemWiseCuda.cuh','src/Operation/OpTransformCuda.cuh','src/Operation/OpNNLayerCuda.cuh','src/Operation/OpLinalgCuda.cu','src/Operation/OpFillingCuda.cuh','src/Operation/OpSamplingCuda.cuh','src/Operation/OpLossCuda.cuh','src/Operation/OpFusedCuda.cuh','src/Tensor/TensorIterator.cuh','src/Utils/CUDAUtils.cpp'],[('two-level warp and block reductions with shared memory and barriers','src/Operation/OpReduceCuda.cuh'),('one registered kernel per operation and device','src/Operation/*Cuda.cu'),('per-device generator state','src/Utils/RandomGenerator.h')],None,['tensors copied back to the host'])
p('C25','Tensors are values: an operation changes only what it is documented to change',
 'Whatever storage tensors share internally (results of reshape, view, narrow, split, chunk, squeeze, index, clone, conversions), an operation changes only the tensor it is called on or writes its result into; every program computes the same contents as if every tensor had a storage of its own. Only copy_ into a view writes the shared storage (data-parallel buckets rely on it).',
 ['programs','histories'],'all sequences of sharing, in-place and result-into-tensor operations over all element types, with different contents of fresh and recycled memory',
 'Whether a write is visible through another tensor depends on the history of both; the tests use each operation alone.',
 ['src/Tensor/TensorImpl.cpp','src/Tensor/Tensor.cpp','src/Operation/OpTransform.cpp','src/Operation/OpTransformCpu.h','src/Operation/OpElemWiseCpu.h','src/Operation/OpFillingCpu.h'],[('copy on write before in-place operations','src/Tensor/TensorImpl.cpp copyOnWrite'),('storage offsets of views','src/Tensor/TensorImpl.h')],None,['contents of every live tensor'])
NA=[
('C40','Tensor operation results equal their mathematical definition','Element-wise, linear-algebra, reduction, convolution, pooling and loss operations return, for every shape, stride layout, broadcast combination and element type, the mathematically defined values to the precision of the type.',['src/Operation','src/Tensor/TensorIterator.h'],'kernels','src/Operation/*Cpu.h'),
('C41','Autograd gradients equal the true derivatives','For every composition of differentiable operations, backward accumulates into each leaf the derivative of the output with respect to it, for any graph shape incl. shared subexpressions.',['src/Function','src/Tensor/AutogradMeta.cpp'],'backward graph','src/Tensor/AutogradMeta.cpp'),
('C42','Optimisers apply their update rule exactly','SGD, Adagrad, RMSprop, AdaDelta, Adam and AdamW change each parameter exactly by their published rule for every hyper-parameter combination and gradient history.',['src/Optimizer.cpp'],'step functions','src/Optimizer.cpp'),
('C43','Learning-rate schedule follows its formula','The step scheduler sets the learning rate of its optimiser to the initial rate times gamma to the power of completed periods, for every epoch.',['src/Scheduler.cpp'],'step','src/Scheduler.cpp'),
('C44','Shape transformations are lossless and views alias correctly','Reshape, permute, transpose, split, concat, stack, gather, scatter, indexing and broadcasting rearrange elements exactly as defined for every shape, and their inverses restore the input.',['src/Operation/OpTransform.cpp','src/Operation/OpTransformCpu.h'],'index arithmetic','src/Operation/OpTransform.cpp'),
('C45','Half and bfloat16 conversions round correctly','Conversions between float and the 16-bit types round to nearest even and preserve infinities, NaN, signed zeros and subnormals for every bit pattern.',['src/Utils/Half.h','src/Utils/BFloat16.h'],'bit manipulation','src/Utils/Half.h'),
('C46','Module traversal lists every parameter and buffer exactly once','Parameters, named states, train/eval mode and device moves reach every registered submodule of any nesting exactly once.',['src/Module/Module.h','src/Module/Basic.cpp'],'recursive registration','src/Module/Module.h'),
('C47','Initialisers draw from the specified distribution','Kaiming, Xavier and uniform initialisers and layer defaults draw from the distribution with the specified bounds or variance for every shape.',['src/Initializer.cpp'],'fan computation','src/Initializer.cpp'),
]
for id,t,s,f,mn,mw in NA:
    p(id,t,s,['inputs','programs'],'all inputs; no schedule, clock, fault or interleaving is involved','The tests check a handful of examples per operation; the guarantee is for every input.',f,[(mn,mw)])
with open('/verif/properties.jsonl','w') as o:
    for x in P:
        assert len(x['title'])<=80,x['title']
        o.write(json.dumps(x)+'\n')
print(len(P))
