text = r'''# Deterministic simulation of TinyTorch

Every claimed property is decided by one technique: the real sources of `/repo` are compiled into one process together
with a simulator that owns every source of nondeterminism; one seed determines one execution; a seeded search runs many
of them; invariants are checked while a run proceeds and its recorded history is judged afterwards.

    setup.sh        builds the three binaries from /repo's tree        sim.mk    build rules (own objects under build/)
    run.sh ID       rebuilds what changed, runs the check ID           sim/      simulator: threads, clock, heap, network, files, search
    build/X.bin replay FILE [-v]   re-executes a replay file           simgpu/   simulated CUDA runtime, cuBLAS, NCCL
    build/X.bin one ID SEED [-p -v]  one generated run                 checks/   scenarios, reference models, oracles
    tools/cu2cpp.py rewrites CUDA sources to C++                       seeded/   planted bugs (no check reads them)

Environment: `VERIF_SEED`, `VERIF_TIER` (quick/thorough), `VERIF_SECS` and `VERIF_RUNS` (budget overrides).

## 1. What there is to simulate

TinyTorch is a small C++ deep-learning library. The parts whose behaviour depends on more than their arguments:

| part | nondeterminism | real code run | replaced by the simulator |
|---|---|---|---|
| TCPStore, FileStore, Store | threads, sockets, files, clocks, process death | all of it | sockets, files, pthreads, clock, heap |
| ProcessGroup, BackendNCCL, WorkNCCL, DistributedProcessGroup | the above and streams, device progress, NCCL errors | all of it, built with USE_CUDA/USE_NCCL | CUDA runtime, cuBLAS, NCCL |
| DistributedModule, Reducer | as above, autograd order | all of it with autograd and optimisers | as above |
| Work.h, Logger | threads | all of it | pthreads, clock, standard streams |
| DataLoader, Sampler, DistributedSampler | entropy, process history, restarts | all of it | entropy |
| Serializer, MMapUtils, DatasetMNIST | disk errors, damage, crashes | all of it (and libstdc++ streams) | file system, mmap |
| CachedAllocator, Storage | refused memory, threads | all of it | system memory |
| tensor operations, gradient mode | memory contents, addresses, entropy, threads (pool, thread-locals) | all of the CPU library | heap, entropy, scheduler |

There are no hooks in `/repo`: the seams are link-time (`-Wl,--wrap` of some 100 libc/pthread functions), compile-time
instrumentation of the library's objects (`-fsanitize=thread`, whose callbacks are ours) and headers that stand in for
CUDA and NCCL. The shipped code is unchanged.

## 2. The simulator

* **Process model.** The driver forks one child per run; the child executes one plan under one seed. Simulated processes
  ("nodes") live in that child; each has its own copy of the library's writable globals (the linker script puts them into
  one section, the image is swapped when the scheduler changes node), its own environment, descriptors, entropy and
  life time: `kill` ends it like SIGKILL at any step (only files survive, its sockets are reset or go silent),
  `pauseNode` is SIGSTOP.
* **Scheduler** (`rt.cpp`). Simulated threads are real pthreads, exactly one of which runs. Every pthread call, system
  call, sleep, atomic operation and function-local static is a scheduling point; in addition plain memory accesses of library
  code pre-empt with a seeded mean distance. Three policies are mixed over runs: random switch probability, PCT-style
  priorities with a few change points, and run-to-block with stalls. Spurious wake-ups, long stalls of a thread and
  stopped processes are faults. Deadlock ("no thread can ever run again") is a violation unless a scenario says otherwise.
* **Clock.** Virtual time advances when every thread waits, plus a little per step; all clock and sleep functions, timed waits
  and socket timeouts read it. Minutes of timeouts cost microseconds.
* **Heap** (`mem.cpp`). Every malloc/new goes to a deterministic arena: red zones, quarantine, shadow state per
  16 bytes; library accesses outside live blocks are reported at once (use after free, overflow). Fresh memory is filled with a
  chosen pattern, layout is perturbed by a knob, single base allocations can be refused.
* **Network** (`net.cpp`). TCP sockets with connection queues, windows, short sends and receives, EINTR, delivery delay,
  split segments whose rest arrives seconds later, resets, half-open peers, partitions and heals (in-order delivery is kept, as
  TCP does), accept/connect/socket errors, TIME_WAIT and port reuse, getaddrinfo. Descriptor numbers are reused as the kernel
  does it, so that a write to a recycled descriptor reaches a foreign connection.
* **Files** (`fs.cpp`). POSIX files with rename, link, unlink of open files, flock and fcntl locks with their different owners,
  mmap (private copies whose mapped range is tracked), directory scans, and failing (EIO, ENOSPC, EDQUOT, EMFILE, EACCES, EINTR),
  short and disk-full transfers; a process can be killed before or after its k-th call.
* **Devices** (`simgpu/`). `cu2cpp.py` turns kernels and `<<<>>>` launches into C++; blocks and threads of a kernel run as a
  loop/fibers on the host. Each stream is a queue of operations executed by a device thread some time after the host has enqueued
  them: events, stream waits, asynchronous copies, memory that is released while a stream still uses it (detected), host
  accesses to device memory (detected), wrong current device (detected). Streams lag by seeded amounts.
  Simulated NCCL has unique ids, communicators, groups, matching of operations by order, data movement executed at the moment
  all parts are reached on their streams, asynchronous errors, failing calls, ncclInProgress, abort of running operations.
* **Search** (`run.cpp`). A plan (knobs, operations, scheduled faults) is generated from the seed ("swarm": each run enables a random subset of
  fault kinds and rates), executed, and judged. 8 workers run in parallel within the time budget. Some runs are executed twice and must
  give the same event hash (recorded as `runs_executed_twice_with_equal_hash`). Crash signals of the library
  inside a child are caught and reported as violations.
* **Replay and minimisation.** A violation is re-executed from its plan and list of decisions, then minimised: operations and fault lines are
  removed, knobs simplified, decisions (schedule switches, delays, faults) reset to their defaults while the same class of
  violation is reproduced. The replay file holds plan, decisions and class; `replay FILE` reproduces it exactly, on any machine.
* **Evidence.** `evidence/ID.json`: runs and seeds per hour, simulated seconds, steps, memory accesses, fault kinds
  with counts of real firings, probes (rare conditions reached), distinct executions (by hash of the sequence of switches, faults and results),
  real and stub components, samples with event logs. Runs that hit the step or time cap are counted as inconclusive and never reported.

### Limits
Sequentially consistent memory only: reorderings allowed by the C++ memory model but not by any interleaving are not
explored. The threads of a CUDA kernel are interleaved only in C24 (elsewhere blocks run one after the other). Crash means process crash: what was written to a file stays (no power loss; TinyTorch never calls fsync and
claims nothing about it). The simulated NCCL is written from its documentation and can differ from the real one; calls of the real
library that block for ever cannot be interrupted by the code and are outside. Results are "no violation in N runs",
not proof.

## 3. Properties and how each is decided

"Slack" is the simulated time granted beyond a bound the code states, to allow for injected stalls. Quick tier: 20–30 s of search
per check on 8 cores; thorough: 600 s. Typical rates: store checks 0.5–1.5 million runs/hour, data 2 million, tensor 0.3–0.8 million,
distributed 0.15–0.5 million.

**C01 TCP store linearizable** (`checks/tcpstore.cpp`, `kv.h`). A server and 1–4 clients in separate nodes run random operation lists;
every call/return is recorded and the history is checked by a Wing–Gong search per key cluster against a map; operations of killed clients
or failing connections may or may not have happened, but not partly. Bytes are compared. Tests cannot reach the interleavings and partial transfers.

**C02 Blocking get/wait.** Waiters against set/delete/re-create. From the history follow intervals in which a key certainly exists or certainly does not exist: if
all keys certainly existed at one moment before the deadline and went on existing, the wait must succeed; if no moment is possible, it must not. Return times against timeout + 4 s slack.

**C03 Failing clients.** Good clients (linearizability, no failed operation, connection must stay) beside bad ones that are killed, reset, partitioned,
stopped in the middle of a request, or come and go by the hundred. Descriptor reuse makes any use of a foreign descriptor visible as wrong bytes.

**C04 Rendezvous.** The recorded timeline of registrations, departures and deaths gives a lower and upper bound of the number of live registered workers at every instant;
construction may only succeed at an instant where the upper bound reaches N and must have succeeded once the lower bound stays ≥ N.

**C05 Shutdown.** Destruction at a random step with clients inside operations; heap shadow (use after free), live threads, descriptor and port accounting,
return in 20 s, blocked clients return, a successor on the same port must be empty and usable; failing socket calls and taken ports.

**C06 / C07 File store.** Several nodes and threads on one directory. C06 without crashes: linearizability over all keys including key count, waits as in C02.
C07 adds kill points around every file-system call, errors and short transfers; a fresh reader at the end; unfinished and failed operations are optional but atomic, acknowledged ones mandatory.

**C08 Initialisation.** Ranks call `initProcessGroup` through tcp, env and file rendezvous with random start times, stale environment, invalid settings, missing, killed, stopped, partitioned peers and failing NCCL calls.
Oracle: identity and world size as configured, all communicators with the same unique id contain every rank once, first collectives right, failure inside timeout + connection attempts' constant (the store client makes a fixed number of attempts with fixed pauses) + grace; a calm second round with the same objects must succeed.

**C09 Collectives.** Random programs with all operators, types, roots, sizes, views, several devices, waits of every kind, device work before and after; exact results computed by the scenario
(integer-valued data for exact sums; the rounding of AVG on integer and half types is the library's definition: sum then divide). Device memory reuse while in flight is a simulated-device fault.

**C10 Barrier.** Each return is compared with the number of ranks that have entered; return within 60 s (+ stopped time) after the last one entered.

**C11 Failures of collectives.** Failing calls, asynchronous errors, killed/stopped/partitioned peers, leaving ranks, lost store; barriers too. A wait with timeout never exceeds 1.5 × timeout + constants, never true without the right data,
after abort false for what failed; completion must become visible once all communicators failed; abort/shutdown/destruction bounded; in runs without faults nothing may fail.

**C12 Work handle.** Waiters, finishers and pollers on the real class, pre-empted at single memory accesses; each return compared with the recorded completion.

**C13 Data-parallel training.** Random small networks wrapped by DistributedModule on 1–3 ranks. Each backward's gradients equal, bitwise across ranks and to rounding, the average of the gradients which the same ranks' copies compute alone; parameters
bitwise equal between ranks, close to single-process training on the combined batch.

**C14 Distributed sampler.** Shards computed in up to 40 nodes with different entropy, history, restarts; size, coverage, padding and equality with a restarted node's shard.

**C15 Data loader.** All settings around the dataset size; each batch against the definition, twice, and in other nodes.

**C16 / C17 / C18 Checkpoints.** C16: save under failing calls; acknowledged file read back by a fresh node, bit by bit. C17: damaged files against an independent parser of the format which decides what may be accepted; mapped ranges are guarded.
C18: training killed at any step/call and resumed from the last acknowledged checkpoint; parameters after each epoch bitwise equal to an uninterrupted run with other entropy, memory contents, layout.

**C19 MNIST.** Damaged/shrinking/failing files; every presented sample against the bytes on the simulated disk, memory filled with noise.

**C20 Caching allocator.** Random sequences over a refusing base allocator, 1–4 threads; model of owned and live ranges, contents, alignment, retry after release, everything returned at the end.

**C21 Independence of entropy, memory, addresses.** The same random program (70 kinds of operations, autograd, optimisers) in nodes that differ in everything that must not matter; bitwise equality, plus shadow faults for accesses outside live blocks.

**C22 Gradient mode.** Threads with nested guards, 50 expressions, shared tensors, backward; flags against each thread's own nesting, results against the thread program run alone.

**C23 Logger.** Every delivered message against what was logged; interleavings down to memory accesses, lengths around the buffer limit.

**C24 Device results.** (`checks/gpu.cpp`) The same random program runs operation by operation on the CPU and on a simulated device. The library's `.cu` and `.cuh` files are compiled by `tools/cu2cpp.py` as C++: each kernel thread
is a coroutine; blocks, warps and threads run in seeded orders, up to three blocks interleaved, and any device memory access may be pre-empted; a warp primitive or barrier not reached by all threads, an access outside a live device block or to host memory,
and a kernel without end are faults. After each operation the result is compared with the CPU's with a tolerance from type, magnitude and summed magnitude; index results by the values they select; random operations run twice with the same seed under other schedules and must agree bitwise; sequences of draws of changing sizes must stay in range, near the expected mean, and share no number.
Excluded: duplicate indices in scatter and index assignment (which write lasts is undefined), half sums and cumulative sums beyond what the CPU's half accumulation represents, operations whose backward is not implemented. Shapes lie around 32, 256, 512, 1024 and tile boundaries.

**C25 Tensors are values.** (`checks/tensor.cpp`) One program of sharing and in-place operations runs in two nodes: as it is, and with every tensor moved into a storage of its own before each operation (there the operands of each operation are also checked to be unchanged). All live tensors bitwise equal after every operation. Fresh and recycled memory differ between the nodes.

**Not applicable** (C40–C47: operation values, derivatives, optimiser rules, schedules, shape transformations, half conversion, module traversal, initialiser distributions): pure functions of
their arguments and (seeded) generator state; nothing in them can be scheduled, delayed or failed, so a simulator decides nothing about them. Their dependence on memory contents, entropy, threads and
restarts *is* claimed, in C21, C22, C18, C14.

## 4. Defects found and repaired

One `fix:` commit each, listed in `known_findings.txt` (44 entries, all `fixed:`; no open known finding). The heavier ones: EINTR broke a store connection (C01); set/add deregistered waiters and timed-out gets closed the connection (C02);
the monitor thread closed descriptors in use, self-deadlock after 128 connections (C03); dead workers counted (C04); destructor detached its threads (C05); the file store's locks excluded nothing between threads
and a crash in set left torn values (C06, C07); initialisation went on with unusable settings (C08); all-gather did not fill the caller's tensors, in-flight tensors were reused (C09); failing collectives hung or were reported as success (C11);
a completed work could change its result (C12); a frozen parameter disabled averaging (C13); padding read outside the index list (C14); float arithmetic for batch counts (C15); failed writes acknowledged (C16); damaged checkpoints crashed (C17);
invented samples (C19); blocks went to the wrong owner, allocator not thread-safe (C20); generator copies made draws repeat, out-of-bounds matmul (C21); crashes and shared scratch under no-grad (C22); device reductions read partial results another block was overwriting, multi-dimension sums wrote past their result, re-seeding did not restart the device generator (C24);
clone shared its storage, index and advanced assignment ignored the storage offset or wrote into other tensors (C25).

Seen outside the claimed properties and left alone (mostly C40/C41 territory, not decided by this technique): `reduceGrad` leaves a [1,n]-shaped gradient for an [n] parameter broadcast over one row (FuncElemWise.h);
`sum()`/`mean()` of a scalar and evaluation-mode dropout share gradMeta with their input while recording; `copy_` writes through (by design, see C25); in-place operations drop gradMeta;
batched `@` 1-D uses `reshape_({m})`, 1-D `@` batched keeps an extra dimension; kernels launched while another device is current abort the process; a DistributedModule's destruction leaves hooks on the base module;
parameters unused in a backward leave their bucket un-averaged (hence the scope of C13's statement); a failed broadcast at DistributedModule construction is silent; plain `wait()` on a failed work that is not aborted puts the compute stream behind an event that fires only after abort.

## 5. False alarms of the machinery itself, corrected

connect() on a connected socket must give EISCONN; a partition must not reorder a connection's bytes; short writes of a stdio cookie; C18 reused a slot of an acknowledged checkpoint and injected faults into loads;
C17's parser refused what the format allows; C20 counted a refusal for impossible sizes; several C21 harness programs read what they had not written; thread start raced with device execution; AVG oracle for integers/halves; parts of aborted operations took part in simulated NCCL, parts already committed were missing in broadcasts;
abort by one rank in a calm run ends other ranks' forgotten operations; objects of killed nodes were destroyed by the tester; abort bound with slow devices; rank 0 serving for a moment with settings later found bad, scheduled faults firing after quiesce, communicators of an earlier round (C08);
plain wait on a failed operation before abort (C11);
half-precision sums accumulated in half on the CPU, duplicate indices, layer norms of nearly constant rows (C24).

## 6. Planted bugs

`seeded/` (none is read by a check). All are caught by the check of their property:

@TABLE@

## 7. Mutation rounds

Beyond the planted bugs, some 250 single mutations (dropped locks and notifications, swapped steps, ignored results, off-by-one bounds, changed timeouts, lost waits, wrong streams/devices/roots) were applied one at a time to a scratch copy and run against
the quick checks; what was missed led to stronger scenarios (split segments, unconditional "leave", stale environment, barriers in C11, wrong current device, device memory fills, hidden failures after abort). Survivors judged equivalent: front/back of a one-element device
list, a returned work that fails anyway, bucket count recomputation.
'''
import json,glob,os
rows=['| id | property | needs |','|---|---|---|']
for f in sorted(glob.glob('/verif/seeded/*/meta.json'),key=lambda f:(json.load(open(f))['property'],f)):
    d=json.load(open(f)); rows.append('| %s | %s | %s |'%(os.path.basename(os.path.dirname(f)),d['property'],d['needs'].replace('\n',' ')))
open('/verif/DESIGN.md','w').write(text.lstrip().replace('@TABLE@','\n'.join(rows)))
