# Source of properties.jsonl and of MANIFEST.json (tools/gen.py writes both).
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,note='',na=None,hook=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,over=over.split(),qtext=qtext,why=why,files=files,mech=mech,note=note,na=na,hook=hook,observe=observe or []))
O='OCTOPUSSY/src/'
prop('P01','In-process messages reach every addressee exactly once, unchanged',
 'A message sent or published inside one process is delivered exactly once to every work process that is addressed by it or subscribed to it, and to no other, and the reported number of deliveries is right. Each receiver sees the content, priority and sender it was sent with, whatever the sender or other receivers do to their own copy afterwards.',
 'schedules histories','every interleaving of sender threads, polled receivers and multi-threaded receivers, every mix of addressed, class-broadcast and published messages, with spurious wakeups and stalled threads',
 'test_octopussy pings a few echo WPs on whatever schedule the OS happens to run; loss or sharing shows only on particular interleavings of enqueue, poll and worker wakeup.',
 [O+'Dispatcher.cc',O+'WPInterface.cc',O+'Message.cc','DMI/src/CountedRefTarget.cc'],
 [('routing and queueing',O+'Dispatcher.cc send()/enqueue()'),('queue and delivery',O+'WPInterface.cc enqueue()/do_poll()/deliver()'),('copy-on-write payloads','DMI/src/CountedRefTarget.cc')],
 observe=['WorkProcess::receive() of every receiver','return value of send()/publish()'])
prop('P02','Message priority, FIFO order and hold/requeue answers are honoured',
 'A receiver gets waiting messages highest priority first and, within one priority, in the order they were sent to it. A message the receiver answers with "hold" or "requeue" is offered to it again, and never lost or offered twice at once. No receiver is starved by traffic to others, whatever its priority.',
 'schedules histories','every interleaving of senders and receivers, all priorities, any pattern of accept/hold/requeue answers',
 'The existing tests never queue messages of different priority and never answer hold or requeue.',
 [O+'WPInterface.cc'],[('priority insertion',O+'WPInterface.cc enqueue()'),('hold/requeue handling',O+'WPInterface.cc do_poll()/deliver()')],observe=['order of receive() calls'])
prop('P03','Timers fire, on time, as often as asked, and stop when cancelled',
 'A timer set by a work process fires no earlier than its period and, in a system that is not overloaded, does fire: once if one-shot, periodically otherwise. After it is removed, or its handler cancels it, it does not fire again.',
 'schedules histories fault_sequences','every interleaving of the event thread with threads adding and removing timers, wall-clock jumps in both directions, stalled threads',
 'No test sets a timer from another thread at the moment the event thread is about to sleep, or moves the clock.',
 [O+'Dispatcher.cc'],[('timeout list and event thread',O+'Dispatcher.cc addTimeout()/removeTimeout()/checkEvents()/eventThread()')],observe=['timeout() callbacks against virtual time'])
prop('P04','Readable descriptors and signals are reported to their watchers, and only them',
 'As long as a watched descriptor is readable its work process keeps being told, so all data can be consumed; a signal raised once or more is reported at least once after it was raised, and never more often than raised. Nothing is reported for descriptors and signals that are not (or no longer) watched, and stopping restores the signal handlers the process had before.',
 'schedules histories fault_sequences','every interleaving of data arrival, signals to any thread of the process, event thread, poll thread and worker threads; adding and removing watches at any time',
 'Input events are only exercised by the gateways on an idle machine; signals other than SIGINT not at all.',
 [O+'Dispatcher.cc'],[('event thread select loop',O+'Dispatcher.cc checkEvents()/eventThread()'),('signal flags',O+'Dispatcher.cc signalHandler()/rebuildSignals()')],observe=['input() and signal() callbacks'])
prop('P05','Start, attach, detach and stop always complete and keep the life cycle',
 'Each work process goes through init, start and stop exactly once and in that order, receives nothing outside that span, is announced to others once on start and once on stop, and is destroyed with no callback of it running. Starting, attaching, detaching and stopping the dispatcher (from any thread, by call or by interrupt signal) always complete and leave no thread behind.',
 'schedules histories','every interleaving of attach, immediate and delayed detach, self-detach from a callback, stop and SIGINT with running traffic, polled and multi-threaded work processes',
 'The tests attach everything before start and stop once, from one thread.',
 [O+'Dispatcher.cc',O+'WPInterface.cc'],[('start/stop/attach/detach',O+'Dispatcher.cc start()/stop()/attach()/detach()/poll()'),('worker threads',O+'WPInterface.cc do_init()/do_start()/do_stop()/workerThread()')],observe=['life-cycle callbacks, Hello and Bye messages, live threads after stop'])
prop('P06','Messages between gatewayed processes arrive exactly once, in order, intact',
 'While the link between two gatewayed processes is up, a message addressed to or subscribed by a work process of the other one arrives there exactly once, byte for byte as it was sent, and messages of one priority from one sender arrive in the order they were sent. No message goes to a process outside its scope or the subscription\'s.',
 'schedules histories fault_sequences','every interleaving of senders, gateway workers, reader threads and polls of 2-4 processes; every segmentation, delay and buffering of the byte stream; all scopes and priorities',
 'test_octopussy and the gateway test exchange a few small messages over loopback TCP, which hardly ever splits a packet.',
 [O+'MTGatewayWP.cc',O+'MTGatewayWP2.cc','TimBase/src/Net/Socket.cc',O+'Message.cc'],[('routing and ordering of outgoing messages',O+'MTGatewayWP.cc willForward()/receive()/mtWakeup()'),('packet writer and reader',O+'MTGatewayWP2.cc transmitMessage()/readerThread()'),('blocking socket I/O','TimBase/src/Net/Socket.cc read()/write()')],observe=['WorkProcess::receive() in every process'])
prop('P07','A gateway survives peers that send junk, or nothing, and keeps serving others',
 'Whatever bytes a connecting peer sends, in whatever pieces, and whenever it stops reading, stalls or disconnects, the process does not crash, hang or stop serving its other peers; it drops such a peer, and keeps no thread, socket, route or peer-list entry of it once it is gone.',
 'inputs schedules fault_sequences','random and near-valid byte streams (damaged, truncated or repeated packets and initialization messages), any segmentation, stall and disconnection point, all interleavings with normal traffic',
 'Every test peer is a well-behaved gateway.',
 [O+'MTGatewayWP.cc',O+'MTGatewayWP2.cc'],[('packet parser and resynchronisation',O+'MTGatewayWP2.cc readerThread()'),('initialization message',O+'MTGatewayWP.cc processIncoming()/processInitMessage()'),('shutdown of a connection',O+'MTGatewayWP.cc shutdown()/stop()')],observe=['threads, sockets and peer list of the process','traffic between the well-behaved processes'])
prop('P08','After link failures and crashes gateways recover and lose no later message',
 'When links break, are partitioned for any time, or a process is killed and restarted, every process is told of each lost and regained peer (Remote.Down and Remote.Up alternate), no message is ever delivered twice or altered, the configured connections come back within a bounded time once the faults stop, and from then on every message arrives exactly once. A process can be stopped at any time, also with a peer that is unreachable or stalled.',
 'schedules histories fault_sequences crash_points','every sequence of connection resets, partitions, process crashes and restarts at arbitrary points of the traffic of 2-4 processes, and every interleaving of their threads',
 'No existing test ever breaks a connection.',
 [O+'GWClientWP.cc',O+'MTGatewayWP.cc',O+'MTGatewayWP2.cc',O+'GWServerWP.cc'],[('reconnection',O+'GWClientWP.cc timeout()/tryConnect()/receive()'),('loss of a peer',O+'MTGatewayWP.cc shutdown()/stop()'),('detection of dead peers',O+'MTGatewayWP2.cc')],observe=['Remote.Up/Down messages','receive() in every process','sockets and threads of each process'])
prop('P10','Gateways settle on one stable connection per pair of processes',
 'However the processes are configured to find each other (explicit peers, advertisements forwarded by others, both ends at once) every pair ends up with exactly one connection that then stays, each has announced the other exactly once as up, and nobody keeps opening new connections.',
 'schedules configurations fault_sequences','star, chain and mutual configurations of 2-4 processes on the same and on different hosts, started in any order at any time, with every interleaving of connection attempts',
 'The tests connect one client to one server.',
 [O+'GWClientWP.cc',O+'GWServerWP.cc',O+'MTGatewayWP.cc'],[('choice of the connecting side',O+'GWClientWP.cc receive()'),('duplicate detection',O+'MTGatewayWP.cc processIncoming()'),('advertisement',O+'GWServerWP.cc advertiseServer()')],observe=['established connections of each process','Remote.Up/Down messages'])
M='MEQ/src/'
EV='trees and other acyclic graphs of 1-22 nodes of every shape (shared children, step-children, changed polling orders, nodes that poll synchronously or one by one in several rounds, parallel or serial), 1-5 threads, every interleaving of the worker threads, stalls and spurious wakeups'
prop('P14','Parallel evaluation of a tree gives the result of serial evaluation',
 'Whatever the number of worker threads, the shape of the tree and the timing, every request to any node yields the value (and derivatives) defined by the request and the values of its children: each child is polled exactly as often as its parents ask, every child result reaches the right slot of its own parent, and no result of another request or another node is used.',
 'schedules inputs configurations',EV+'; histories of 1-10 requests with changing identity',
 'The tests run small trees with one thread count and one schedule.',
 [M+'NodeNursery.cc',M+'MTPool.cc',M+'Node.cc'],[('parallel polling',M+'NodeNursery.cc syncPoll()/startAsyncPoll()/awaitChildResult()/backgroundPoll()'),('work orders and worker threads',M+'MTPool.cc')],observe=['Result and return code of Node::execute()','number of getResult() calls per node'])
prop('P15','Parallel evaluation always ends and never runs a node twice at once',
 'Every execute() returns, in any number of threads, for every graph: no work order is left on the queue while threads wait for it, no thread waits for itself or for a thread that waits for it, no node is ever evaluated by two threads at the same time, and when execute() returns nothing below it is still running. Stopping the pool ends all worker threads.',
 'schedules configurations',EV+', with failing and missing results and every error policy',
 'A deadlock of the worker threads depends on the schedule.',
 [M+'MTPool.cc',M+'NodeNursery.cc',M+'Node.cc'],[('waiting for children',M+'NodeNursery.cc mt_waitForEndOfPoll()/awaitChildResult()/syncPoll()'),('worker threads, limits, stop',M+'MTPool.cc'),('mutual exclusion of a node',M+'Node.cc execute()')],observe=['return of execute()','threads of the process'])
prop('P16','Failed and missing child results are handled as the policy says',
 'With each of the policies (collect, abandon, ignore), for fails and for missing data independently, in serial and in parallel polls: a node returns all the fails of its children and only those, none is lost or turned into a value, an ignored one never makes the node fail, an abandoned poll leaves nothing behind that could show up in a later request, and a node that once failed recovers as soon as a request no longer makes it fail.',
 'inputs schedules histories',EV+'; every assignment of policies, of failing, throwing and missing nodes per domain, and every caching policy, over histories of requests',
 'The tests use the default policy.',
 [M+'NodeNursery.cc',M+'Node.cc'],[('policies',M+'NodeNursery.cc syncPoll()/mt_receiveSyncChildResult()'),('fail results',M+'Node.cc execute()')],observe=['Result and return code of Node::execute()'])
prop('P17','Aborting an evaluation stops it promptly and leaves the tree usable',
 'When the abort flag is raised at any moment, execute() returns soon (no thread starts another evaluation beyond the one it was about to do) with either the abort code or a complete, correct result; nothing is left running, and every later request gives the correct result, whatever was cached before, during or after the aborted one.',
 'schedules histories crash_points',EV+'; the abort flag raised at an arbitrary step of any request of a history, with every caching policy and failing nodes',
 'No existing test aborts an evaluation.',
 [M+'Node.h',M+'NodeNursery.cc',M+'Node.cc',M+'Forest.h'],[('abort',M+'Node.h exitAbort(), '+M+'NodeNursery.cc mt_abortPoll()')],observe=['return of execute() and the number of evaluations started after the abort','results of the requests that follow'])
prop('P18','A cached result is only ever used where it is still valid',
 'For every cache policy of the forest and of each node, every sequence of requests, hints about the next request, state changes and cache clearing, each request yields exactly what it would yield without caches: a cache is dropped when any dependency of the result (iteration, state, resolution, domain, dataset) or the kind of request changes, derivatives are there if and only if asked for, and the use or release of a cache never changes the result of another parent.',
 'histories inputs schedules',EV+'; all cache policies, all dependency masks, histories of 1-10 requests with any change of request identity, right, wrong and missing next-request hints, state changes, cache clears and state queries in between',
 'The tests check few request sequences with the default policy.',
 [M+'Node.cc',M+'RequestId.cc',M+'Forest.cc'],[('cache lookup and storage',M+'Node.cc getCachedResult()/cacheResult()/holdChildCaches()/clearCache()'),('request identity',M+'RequestId.cc diffMask()')],observe=['Result and return code of Node::execute()'])
DM='DMI/src/'; SV='MeqServer/src/'; AA='AppAgent/AppAgent/src/'
prop('P19','The debugger stops where it was told to, and nothing runs while stopped',
 'For every placement of local, single-shot and global breakpoints, every moment of interrupts and every sequence of continue, step, next-node, until-node and abort, execution stops at each breakpoint it reaches and nowhere else; while it is stopped no other thread starts an evaluation and every query is answered; each resume command makes it proceed exactly as far as asked; and when all breakpoints are cleared it runs to the end with the undisturbed result.',
 'schedules histories inputs','MeqServer and forest with 1-4 worker threads, forests of up to 9 nodes of different speeds, up to 30 stops per execution, all breakpoint masks, all resume commands, queries while stopped; stalled threads, spurious wake-ups',
 'The debugger is only ever tried by hand from the browser, single-threaded.',
 [SV+'MeqServer.cc',M+'Node.cc',M+'Forest.cc'],[('breakpoints',M+'Node.cc setExecState()/setBreakpoint()'),('stop flag',M+'Forest.cc processBreakpoint()/waitOnStopFlag()'),('debugger commands',SV+'MeqServer.cc debugContinue()/debugSingleStep()/debugNextNode()/debugUntilNode()/debugInterrupt()/processBreakpoint()')],observe=['MeqServer.Out.Debug.Stop events','command replies','evaluations of the nodes'])
prop('P20','The server executes commands as if one by one, and answers each one once',
 'For every sequence of commands from one or more clients, in any interleaving, each command that asks for it gets exactly one reply to every subscriber, commands that are queued are executed in the order in which they were received with the effects and the errors of a sequential forest, queries that are answered at once see a state of the forest between two commands, a failing or malformed command leaves the server working, and node results are those of the forest as it was.',
 'histories schedules inputs','MeqServer with its real Octopussy and AppAgent message layers, 1-3 clients, up to 24 commands each (create, create batch, delete, clear forest, execute, clear cache, set state, queries, unknown and malformed ones, silent ones), 1-4 worker threads; stalled threads, spurious wake-ups',
 'The tests send a handful of commands from one client, waiting for each.',
 [SV+'MeqServer.cc',M+'Forest.cc',M+'Node.cc',AA+'OctoChannel.cc',AA+'OctoEventMux.cc'],[('command queue',SV+'MeqServer.cc executeCommand()/runExecutionThread()/execCommandEntry()'),('node creation and removal',M+'Forest.cc create()/remove()/clear()'),('message transport',AA+'OctoEventMux.cc checkQueue()')],observe=['MeqServer.Out.* events'])
prop('P21','The server can be stopped at any moment',
 'Whenever the server is told to end - by a halt command or message, or by its communications being stopped - while idle, executing, with commands queued, stopped at a breakpoint or being created, it ends within bounded time: the command being executed is completed and answered as long as there is somebody to answer to, no command is started any more, no node is evaluated afterwards, and the forest, all threads and the Python interface are gone.',
 'schedules histories','MeqServer with its real message layers, 1-4 worker threads, up to 4 queued executions, breakpoints and interrupts, halt command, halt message or shutdown of the dispatcher at any moment; stalled threads, spurious wake-ups',
 'The tests end the server by killing it, or when it is idle.',
 [SV+'MeqServer.cc',AA+'OctoEventMux.cc',AA+'OctoChannel.cc','OCTOPUSSY/src/Dispatcher.cc'],[('halting',SV+'MeqServer.cc run()/halt()/processBreakpoint()'),('stopping communications',AA+'OctoEventMux.cc stop()/post()')],observe=['return of MeqServer::run()','command replies'])
prop('P12','An object file holds an intact prefix after a crash or truncation',
 'For every sequence of objects of any types and nesting written to an object file, and every point at which the writer is killed or the file is cut, reading the file yields exactly the first objects written, in order and unchanged, including every one flushed before a crash and every one complete in the file; if the file ends within an object, an error is reported and no made-up object; otherwise the end of the file is; rewinding and peeking at types change nothing.',
 'crash_points inputs histories','BOIO over a simulated disk: up to 60 random objects (records, lists, vectors, arrays, nested), flushes, re-opening for appending, crash of the process at any time or after any number of bytes, truncation to any length, short reads and writes',
 'The tests write one file and read it back.',
 [DM+'BOIO.cc',DM+'BOIO.h'],[('reading',DM+'BOIO.cc readAny()/nextType()'),('writing',DM+'BOIO.cc write()/flush()/close()')],observe=['objects and errors from BOIO::readAny()'])
prop('P13','Disk errors are never silent for object files',
 'For every sequence of writes, flushes and closes and every pattern of write errors, short writes and full disks, an object that was accepted, flushed or closed without an error can be read back; once an object could not be stored completely, this and every later write is refused with an error rather than stored where it cannot be read; and a read error is reported as an error, never as the end of the file.',
 'fault_sequences inputs','BOIO over a simulated disk: up to 60 random objects; full disk at any byte, write errors, short writes, read errors',
 'No test runs on a failing disk.',
 [DM+'BOIO.cc',DM+'BOIO.h'],[('write errors',DM+'BOIO.cc write()/writeError()/flush()/close()'),('read errors',DM+'BOIO.cc nextType()/readAny()')],observe=['exceptions of the BOIO functions'])
prop('P26','Event files and recordings are complete, in order and put in place atomically',
 'For every sequence of events with any identifiers, payloads and addresses, an event channel writing to a file and one reading from it deliver each event once, in order and unchanged, whatever masks the reader uses; a recording appears under its final name only after the channel was closed without any error and then holds every event; after an abort, a crash or a disk error the earlier recording is untouched and an aborted one leaves nothing behind; and the channel is closed in any case.',
 'crash_points fault_sequences inputs histories','BOIOChannel and EventChannel recordings over a simulated disk, up to 50 events, crash at any byte, full disk, write errors, short reads and writes, failing renames, close, abort or neither',
 'There is no test of event channels.',
 [AA+'BOIOChannel.cc',AA+'FileChannel.cc',AA+'EventChannel.cc',DM+'BOIO.cc'],[('recordings',AA+'EventChannel.cc init()/close()/abort()/recordEvent()'),('file channels',AA+'BOIOChannel.cc refillStream()/postEvent()'),('masks',AA+'FileChannel.cc getEvent()/hasEvent()')],observe=['events returned by getEvent()','files on disk'])
prop('P22','A queued event channel hands over every event, error and close between threads',
 'Events posted to a queue channel reach the remote channel served by its worker thread exactly once, in order and unchanged, and events of the remote channel reach the application likewise, with at most the configured number waiting. Every exception of the remote channel is reported to the application once. Waiting reads, posts and flushes complete whether the remote channel delivers, closes itself or fails; close() first hands over what was posted, abort() aborts the remote channel and close() closes it; afterwards no thread is left and the channel can be opened again.',
 'schedules fault_sequences histories','a queue channel over a remote channel with any delays, errors in init/get/post/close and spontaneous closing, queue sizes 1..256, any sequence of posts, reads (blocking or not, with masks), flush, close and abort over up to 3 openings, every interleaving of application, worker and source thread',
 'There is no test of event channels; a lost wake-up or event shows only on particular interleavings.',
 [AA+'MTQueueChannel.cc',AA+'EventChannel.cc',AA+'EventFlag.cc'],[('queues and worker',AA+'MTQueueChannel.cc workerThread()/getEvent()/postEvent()'),('closing',AA+'MTQueueChannel.cc close()/abort()'),('event flag',AA+'EventFlag.cc')],observe=['events returned by getEvent() and posted to the remote channel','reported exceptions'])
prop('P23','The event multiplexer maps messages to the right channel and back, losing none',
 'Every message that the input map of a channel binds (by entry or by prefix) reaches that channel exactly once as the mapped event, in order, with its data and sender; others reach none. Every event posted is sent once, to its destination or published, with the identifier, scope and priority of the output map, and is dropped only if it is not bound. hasEvent() consumes nothing; readers blocked on different channels in different threads are each woken when an event for them arrives, and all are released when the multiplexer stops.',
 'schedules inputs histories','up to 4 channels of one multiplexer in one or several threads, all kinds of map entries (prefixes, scopes, priorities, null events), messages sent or published, blocking and polling reads with masks, stop at any moment, every interleaving with the dispatcher thread',
 'There is no test of event channels.',
 [AA+'OctoEventMux.cc',AA+'OctoChannel.cc'],[('routing and wake-ups',AA+'OctoEventMux.cc getEvent()/receive()/notify()'),('maps',AA+'OctoChannel.cc init()/mapEvent()')],observe=['events returned by getEvent()','messages received by a peer'])
prop('P25','Parameter tables return what was stored, across closes, crashes and disk errors',
 'For any parameter name and domain a table returns, once each, exactly the last funklets stored for that name whose domains overlap, with their domains, shapes and coefficients; the iterator lists the same. This holds after closing and reopening, for several threads and for several processes sharing a table. A crash loses nothing that was flushed or closed, and otherwise a funklet being written has its old or new value, or the whole table is discarded with a warning: a damaged or mismatched entry is never returned. A disk error is reported by the call it affects and never passes for an absent funklet.',
 'crash_points fault_sequences schedules histories','tables of up to 5 names and 50 domains (with undefined axes), constants and polynomials, crash at any instruction, full disk, failing and short reads and writes, failing syncs, up to 3 threads and 3 processes, any sequence of put, get, delete, iterate, flush, close and reopen',
 'The table test writes and reads one table in one process without faults.',
 ['MEQ/src/FastParmTable.cc','MEQ/src/ParmTable.cc','MeqNodes/src/ParmTableUtils.cc'],[('domain list','MEQ/src/FastParmTable.cc openDomains()/putCoeff()'),('storage','MEQ/src/FastParmTable.cc getFunklets()/putCoeff()/flush()'),('shared tables','MeqNodes/src/ParmTableUtils.cc')],observe=['funklets returned by getFunklets()','files on disk'])
prop('P24','The visibility stream reaches every handler once and the output completely',
 'For every well-formed stream of data sets each tile of each snippet is given to every spigot and sink of its baseline, each handler is evaluated once per snippet after the start child and before the end child, and the output stream holds, in order, each header, each tile a sink wrote - its result in the chosen column, correlations, valid rows and flags, the rest of the tile as it came in - and each footer. A damaged or incomplete stream, a failing node, handler or disk makes the request fail and say why; nothing else does. An abort ends it soon, leaves no thread behind and does not disturb the next request. Start and end are announced in pairs.',
 'inputs schedules fault_sequences histories','forests of up to 8 baselines with several spigots, sinks and pre/post children, 1-5 threads, any cache policy, up to 5 requests of up to 3 data sets of any shape with missing tiles and invalid rows, streams out of sequence, cut or corrupted, failing nodes and Python handlers, disk errors, short transfers and full disks, aborts at any moment, every interleaving of the workers and the channel threads',
 'There is no test of the visibility multiplexer that checks its output.',
 ['MeqServer/src/VisDataMux.cc','MeqServer/src/Spigot.cc','MeqServer/src/Sink.cc','VisCube/src/VTile.cc','AppAgent/AppAgent/src/BOIOChannel.cc'],[('stream processing','MeqServer/src/VisDataMux.cc pollChildren()/deliverTile()/endSnippet()'),('tiles into results and back','MeqServer/src/Spigot.cc getResult(), MeqServer/src/Sink.cc getResult()')],observe=['output file','result and return code of the request','events posted by the multiplexer','calls of the nodes'])
prop('P11','Shared values behave as values, whoever else holds them',
 'A record, list, array or vector that several holders or threads refer to behaves for each of them as a value of its own: what one holder writes (to a field, element, list item, nested record or vector, by any accessor) is seen by it and by no other holder of a copy, at whatever depth the sharing is, and nobody sees a half-made change. Packing a value into blocks and unpacking it, also lazily, in pieces and several times, yields an equal and independent value. Transferring, copying, privatising and releasing references loses nothing, frees nothing that is still in use, and leaves nothing allocated when the last holder is gone.',
 'schedules programs inputs','random programs of up to 90 operations per thread in 1-4 threads that exchange references, over nested records, lists, numeric arrays, vectors and vectors of objects, with every interleaving of the threads',
 'The DMI tests use each container once, in one thread.',
 [DM+'CountedRefBase.cc',DM+'CountedRefTarget.cc',DM+'Record.cc',DM+'List.cc',DM+'Vec.cc',DM+'NumArray.cc',DM+'Container.cc'],[('reference counts and copy-on-write',DM+'CountedRefBase.cc copy()/xfer()/privatize()/getTargetWr()'),('nested containers',DM+'Record.cc, List.cc, Vec.cc get()/cloneOther()'),('packing',DM+'*.cc toBlock()/fromBlock()')],observe=['content of every held reference','number of live objects'])
prop('P27','Locks exclude, wake their waiters, and timed waits last as long as asked',
 'For any number of threads: no two hold a mutex at once; a try-lock that reports success holds the mutex and one that reports failure does not; a read/write lock never admits a writer together with a reader or another writer, upgrading and downgrading included; a thread waiting for a lock gets it once it is free, whichever others wait for it; a condition wait for a given time ends when signalled, or no earlier than that time, and never fails; locks that are copied, moved to another mutex or released leave each mutex held exactly by those that claim to hold it.',
 'schedules histories','random programs over 2 read/write locks, 2 mutexes and a condition variable in 2-5 threads, every interleaving, with spurious wakeups and stalled threads, timed waits of 1 ms to 2.5 s',
 'The repository has no test of the thread primitives with more than one thread.',
 ['TimBase/src/Thread/SmartLock.cc','TimBase/src/Thread/Mutex.h','TimBase/src/Thread/Condition.h','TimBase/src/Thread/SmartLock.h'],[('read/write lock','TimBase/src/Thread/SmartLock.cc rlock()/wlock()/wlock_upgrade()/runlock()'),('mutex and its lock objects','TimBase/src/Thread/Mutex.h'),('timed wait','TimBase/src/Thread/Condition.h wait()')],observe=['who is inside which critical section','return codes and simulated time of waits'])
NA_PURE='pure, single-threaded computation: no scheduling, clock, I/O, randomness or peer for a simulator to control, so deterministic simulation has nothing to decide; '
prop('P90','Numerical functions compute the documented element-wise result',
 'Every arithmetic, trigonometric, matrix and reduction node returns the mathematically correct value for each cell of its grid, for every combination of constant, time-, frequency- and time-frequency-variable operands.',
 'inputs','all operand shapes and values','The tests compare a handful of shapes.',['MEQ/src/Vells.cc','MEQ/src/VellsMath.cc','MeqNodes/src'],[('element-wise kernels','MEQ/src/VellsMath.cc')],na=NA_PURE+'(the evaluation order, caching and threading around these kernels is covered by P14-P19).')
prop('P91','Polynomial coordinate transforms are exact',
 'Normalising, shifting and re-expanding a polynomial coefficient set to another domain describes the same function on the overlap.',
 'inputs','all polynomials and domains','The tests cover few ranks.',['MEQ/src/Polc.cc','MEQ/src/PolcLog.cc'],[('coefficient transforms','MEQ/src/Polc.cc')],na=NA_PURE.rstrip('; ')+'.')
prop('P92','Distributed (MPI) evaluation equals local evaluation',
 'A forest distributed over several MPI processes yields the same results as in one process.',
 'schedules configurations','all placements and message orders','MPI is not built in the baseline.',['MeqMPI/src'],[('remote nodes','MeqMPI/src/MeqMPI.cc')],na='no MPI library or headers are installed and the code is compiled out in this build, so there is no code to run under the simulator.')
