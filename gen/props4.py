p('C21', 'The locks of the library cannot deadlock',
  'Whenever code holds one mutex of the library while it acquires another, every other place acquires the two in the same order, so that no set of threads can block each other; no mutex is acquired again by the thread that holds it. '
  'No thread is joined while a mutex is held that the joined thread may acquire, or, if the joined thread runs user callbacks, while any mutex is held. A thread waiting on a condition variable holds no mutex other than the one it gives up while waiting. Region and region event callbacks of the user, and the subscribers of events, property changes and states, run while no mutex is held that another operation of the library needs.',
  [S], 'all interleavings of all threads of a process, and of processes sharing a session', 'a deadlock needs two threads inside two short critical sections at once; tests practically never hit it',
  ['fairmq/shmem/Manager.h', 'fairmq/shmem/UnmanagedRegion.h', 'fairmq/zeromq/Context.h', 'fairmq/ProgOptions.h', 'fairmq/StateMachine.cxx', 'fairmq/PluginServices.cxx', 'fairmq/Device.cxx'],
  [('region registry', 'fairmq/shmem/Manager.h'), ('ack threads', 'fairmq/shmem/UnmanagedRegion.h')],
  'whole-program lock-order graph, lockset and join/wait analysis over the call graph')
p('C29', 'Library threads are always stopped, woken and joined',
  'Every thread the library starts as part of an object is joined before the object is gone, on every path of its destructor on which it could be running, and a running thread is never overwritten by another start. Before such a thread is joined it has been told to stop. '
  'The threads started for a single call (rate logging, multi-transport polling, the shared memory monitor) are joined before that call returns. A thread waiting without time limit waits for a condition, and every change that can make the condition true happens under the mutex of the wait and is followed by a notification on every path, so that no wake-up is lost.',
  [S, F], 'every interleaving of start, stop, wait and notification', 'a lost wake-up or a missing join needs one particular interleaving and shows as a rare hang or abort',
  ['fairmq/shmem/Manager.h', 'fairmq/shmem/UnmanagedRegion.h', 'fairmq/shmem/Monitor.cxx', 'fairmq/zeromq/Context.h', 'fairmq/Device.cxx', 'fairmq/plugins/control/Control.cxx', 'fairmq/StateQueue.h', 'fairmq/tools/Semaphore.cxx', 'fairmq/PluginServices.cxx'],
  [('heartbeats and region events', 'fairmq/shmem/Manager.h'), ('region events', 'fairmq/zeromq/Context.h'), ('control plugin threads', 'fairmq/plugins/control/Control.cxx')],
  'thread typestate by event-language inclusion, stop-flag and lost-wake-up analysis of all condition variables')
p('C22', 'Unmanaged regions: unique ids, one registry, the right region found',
  'Within a session every unmanaged shared memory region that is created without an id gets a fresh one; an id used by a controlling region cannot be used again. The process that creates a region enters it in the registry once, with its path, creation flags, user flags, size and reference count segment size; every other process that opens it uses exactly those. '
  'Looking up an id yields the region with that id or nothing. Removing a region takes it from the process, marks it as destroyed for all (if it is to be removed on destruction), and no thread uses a cached pointer to a removed region or to a region of another session. The tables shared between threads are only touched under their mutex.',
  [S, H, I], 'all regions, processes, threads and orders of creation, lookup and removal', 'wrong sharing only shows between several processes, with file-backed regions, non-default configurations, or a removal concurrent with a lookup',
  ['fairmq/shmem/Manager.h', 'fairmq/shmem/UnmanagedRegion.h', 'fairmq/zeromq/Context.h', 'fairmq/zeromq/UnmanagedRegion.h'],
  [('creation and lookup', 'fairmq/shmem/Manager.h'), ('registration', 'fairmq/shmem/UnmanagedRegion.h')],
  'event languages over the registry operations, per-record field-provenance dataflow, branch-fact and lockset (guarded-by) analysis')
p('C23', 'Every released region block is acknowledged exactly once',
  'Each block of an unmanaged region that is released is queued once and sent to the controlling process unless acknowledgements are being stopped and the queue is full; the number of blocks taken from the list is the number sent. The controller passes every received block exactly once to the bulk callback, or else to the callback, with its address inside the region, its size and its hint. '
  'Before a region is removed the sender has drained its list and, after it, the receiver the queue (within the linger time).',
  [S, H], 'all numbers and interleavings of released blocks, bunch boundaries and shutdowns', 'a lost or doubled block needs a certain fill level of list and queue at the moment of shutdown',
  ['fairmq/shmem/UnmanagedRegion.h', 'fairmq/shmem/Manager.h'], [('acknowledgement threads', 'fairmq/shmem/UnmanagedRegion.h')],
  'event-language inclusion of the sender and receiver loops with linear-arithmetic and provenance checks of what is moved')
p('C24', 'Region events: every creation and destruction is reported once, correctly',
  'GetRegionInfo reports every segment and unmanaged region of the session once, with its id, kind, flags, state and (if it exists) the address and size it has in this process. A subscriber gets one callback when a segment or region it has not seen exists, and one when a region it was told about is destroyed, each with that entry; the events counted as seen follow exactly. '
  'Creating or destroying a region or segment is counted (shared memory) or queued (zeromq) exactly once, with its own data, in both transports, and a new subscription replaces the previous one, whose callback is no longer running.',
  [S, H, I], 'all orders of creation, destruction, subscription and polling', 'a missed, doubled or mixed-up event needs a particular order of events between two polls of the event thread',
  ['fairmq/shmem/Manager.h', 'fairmq/shmem/TransportFactory.h', 'fairmq/zeromq/Context.h', 'fairmq/zeromq/TransportFactory.h', 'fairmq/zeromq/UnmanagedRegion.h'],
  [('event loops', 'fairmq/shmem/Manager.h'), ('queue', 'fairmq/zeromq/Context.h')],
  'event-language inclusion of the event loops and tables, per-record field-provenance dataflow')
p('C25', 'Shared memory is removed completely, by its last user, and only then',
  'Every kind of shared memory object of a session (management segment, managed segments, unmanaged regions with their queue and reference counts, the mutex of the monitor) is found and removed by the cleanup under the name it was created with, the management segment last, and each removal is reported. '
  'A process using the session counts itself once and, however it ends its use (also by a failing constructor), uncounts itself; the one that leaves none removes the memory unless told not to, others remove nothing. A monitor removes memory only when no heartbeat was seen within the timeout, when asked to, or when the session is gone anyway; a view-only monitor and the query functions never create, change or remove anything. A segment is always opened, and reset, with the allocation algorithm recorded for it.',
  [H, F, S], 'all sequences of devices starting, failing and stopping, all sets of regions and segments, all monitor modes', 'leftovers or premature removal show only with several processes, failing starts, file-backed regions or a monitor beside them',
  ['fairmq/shmem/Monitor.cxx', 'fairmq/shmem/Manager.h', 'fairmq/shmem/UnmanagedRegion.h', 'fairmq/shmem/Segment.h', 'fairmq/shmem/Common.h'],
  [('cleanup and monitor', 'fairmq/shmem/Monitor.cxx'), ('last user', 'fairmq/shmem/Manager.h')],
  'naming census of all interprocess objects, event languages of cleanup, user counting and monitor, mode guards by path-sensitive facts, effect analysis of the queries')

p('C26', 'Device control belongs to one plugin, and the plugin interface is faithful',
  'At any time at most one plugin controls the device. A state change requested by the controller, or by the first plugin to ask while nobody is in control, is passed to the device and its verdict returned; a request by any other plugin is refused with DeviceControlError and changes nothing. Taking control works exactly when it is free or already owned, stealing always, releasing only by the owner, and whoever waits for the release returns only when nobody is in control. '
  'Every other function of the plugin interface (properties, subscriptions, state queries, logging) reaches its counterpart of the device, the configuration or the logger exactly once, with the caller\'s own arguments, type and plugin name, and gives back what it got.',
  [S, I], 'all interleavings of the threads of several plugins, all argument values and property types', 'the races between controllers and the wrong overload of a forwarding function only show in particular configurations; the runnable tests use no plugins',
  ['fairmq/PluginServices.h', 'fairmq/PluginServices.cxx', 'fairmq/Plugin.h'],
  [('device control', 'fairmq/PluginServices.cxx'), ('plugin interface', 'fairmq/Plugin.h')],
  'guarded-by analysis of the controller, event languages of the control functions, path counting and argument/result flow of each forwarding function')

p('C28', 'The builtin control plugin drives the device along the documented path',
  'The startup sequence requests the transitions from Idle to Running in order, each after the state it needs has been reached, and stops at a shutdown request. The shutdown sequence, from whatever state it starts and whatever happens meanwhile, requests in each waiting state a transition that leads towards Exiting, misses no state change, and ends by releasing control. Each key of the interactive session requests its documented transition and no other; the session ends at a shutdown request, at q, and fails in the error state. '
  'In every control mode the shutdown sequence runs unless the signal handler runs it; losing control to another plugin or the error state never ends the process. At a signal the controller thread is told, awaited, and the device shut down if it has not been. In the error state everything that waits is released. A plugin that subscribed itself unsubscribes before it is gone.',
  [S, H], 'all interleavings of state changes, signals and key presses, all control modes and states at shutdown', 'most states are passed only for an instant, so a signal in them, or a transition in between two steps, is not something a test hits',
  ['fairmq/plugins/control/Control.cxx', 'fairmq/plugins/control/Control.h', 'fairmq/plugins/config/Config.cxx'],
  [('control plugin', 'fairmq/plugins/control/Control.cxx')],
  'event languages of each sequence, per-state and per-key specialised path analysis checked against the transition table, lock and handler analysis')

p('C27', 'Plugins are loaded once, found as documented, and live as long as needed',
  'The prefix of a plugin name selects its mechanism. A plugin is listed exactly once, when it was loaded and not listed before; a plugin that cannot be loaded is reported and not listed. The configured search paths are tried first, all of them and in order, then the system; a search path is validated before it is stored and set, appended or prepended as asked. '
  'Plugins are instantiated once, in the order loaded, with the plugin services; a failure is reported; each is handed to a visitor once. Plugins go before their services and their libraries. The builtin configuration plugin takes the channel configuration (the JSON file before the sub-options) over exactly when the device is initialised.',
  [I, S, F], 'all plugin names, lists of plugins and search paths, all failures of the loader', 'the runnable tests load no plugins; which mechanism or path is used depends on prefixes, duplicates and failures of the dynamic loader',
  ['fairmq/PluginManager.cxx', 'fairmq/PluginManager.h', 'fairmq/plugins/config/Config.cxx'],
  [('loading and instantiation', 'fairmq/PluginManager.cxx'), ('configuration plugin', 'fairmq/plugins/config/Config.cxx')],
  'event languages of loading, instantiation and configuration per prefix and per plugin name, argument flow, member-lifetime order analysis')

p('C37', 'The device runner takes every run through the documented steps',
  'Run goes through its steps in order, each at most once: builtin configuration plugin, the hook to load plugins, control plugin, the hooks for options and arguments, parsing, logging options, the hook that makes the device, plugin services and plugins, the state machine, and waiting until control is released. It ends early only for help, options, channels, version (0) or a missing device (failure), and then runs no state machine. '
  'The general options take effect at start and whenever they change. A hook calls exactly the installed handler. An exception on the way is reported and turned into a failure result; main returns the result of the run and lets nothing escape.',
  [I, F], 'all command lines, all exceptions thrown by hooks, plugins or the device', 'needs whole processes with plugins, options and failing hooks; the runnable tests start no device process',
  ['fairmq/DeviceRunner.cxx', 'fairmq/DeviceRunner.h', 'fairmq/runDevice.h'],
  [('runner', 'fairmq/DeviceRunner.cxx'), ('main', 'fairmq/runDevice.h')],
  'event-language inclusion of Run, the option handling and main, per-key specialised path analysis of the change callbacks, exception-escape analysis')

p('C13', 'The device carries out every state completely and in order',
  'Entering a state runs its user hooks exactly once and in order and then requests the automatic transition, unless another one is pending. Initialisation creates every configured sub-channel once, from its own properties, gives it its transport (each made once and shared) and queues it once for binding or connecting; the device goes on only when all are bound, and retries connecting until all are connected, the time is up or a transition is requested. Resetting drops everything of the earlier configuration. '
  'While running, a data callback gets exactly the message received for its channel and sub-channel; input is handled until a transition is pending or a callback is done. Several transports are polled by a thread each, one callback at a time; the first failure or end stops all. An exception leads to the Error state; a Stop requested at the same time is no error. Rates compare counters and time over the same interval.',
  [I, S, F], 'all channel configurations, callbacks, failures and moments at which a transition is requested', 'the runnable tests start no device; which path is taken depends on configuration, on when a transition arrives and on exceptions thrown by user code',
  ['fairmq/Device.cxx', 'fairmq/Device.h'],
  [('state handlers', 'fairmq/Device.cxx'), ('data callbacks', 'fairmq/Device.cxx'), ('pending transitions', 'fairmq/Device.h')],
  'event-language inclusion of every state handler and polling loop, loop-coverage and provenance analysis of channels and messages, lockset analysis')

p('C30', 'Exceptions of the library never end the process',
  'No exception that the library throws itself can leave a destructor, a noexcept function, a thread the library starts, a clean-up action run on destruction, or a function handed to a C library: on every path it is caught before, so that a failure is reported or leads to the Error state instead of terminating the process.',
  [F, I], 'all failures at all points, including while another exception is handled', 'the process ends only if a particular failure happens in a particular thread or during destruction, which tests do not provoke',
  ['fairmq/Device.cxx', 'fairmq/plugins/control/Control.cxx', 'fairmq/shmem/Manager.h', 'fairmq/shmem/Message.h', 'fairmq/zeromq/Context.h'],
  [('running state', 'fairmq/Device.cxx'), ('controller thread', 'fairmq/plugins/control/Control.cxx')],
  'interprocedural exception-escape analysis (typed handler dispatch, unwinding through inlined calls and destructors)')

p('C31', 'The rate limiter keeps limiting',
  'For every requested rate the limiter compares time per iteration with the requested time after a positive, finite number of calls, over exactly the calls since the last comparison, and starts the next countdown. Slower than requested: it sleeps less or compares less often; faster: more. It sleeps its sleep time whenever that is positive. A rate of zero or less means 1 GHz. The number of calls between comparisons and the requested duration never drop below one (no division by zero).',
  [I, H], 'all rates, all histories of iteration times', 'rates below 1 Hz or above 1 GHz and slow starts lead into corner cases of integer arithmetic that no test enters',
  ['fairmq/tools/RateLimit.h', 'fairmq/Device.cxx'], [('rate limiter', 'fairmq/tools/RateLimit.h')],
  'lower-bound and monotonicity abstract interpretation of the counters, event-language inclusion')

p('C36', 'The bundled devices pass on, spread, copy, write and generate as told',
  'Proxy: until a state change is pending it receives from its input and sends every message received, empty ones included, once to its output. Merger: the same for every sub-channel of its input; a sub-channel with data is never passed over because another has data. Splitter: each message goes to exactly one output, the outputs in turn, starting with the first after each initialisation. Multiplier: each message goes once to every sub-channel of every output channel, with all its parts. Sink: while a file is open, every part of every message received is written completely, in order and once; it stops after max-iterations messages or max-file-size bytes, if set. BenchmarkSampler: every message has the configured parts, size and alignment; it stops after max-iterations messages, if set, and keeps to the rate. Parameters come from the like-named properties; multi-part and single messages are used as configured.',
  [F, I, H], 'all message sequences, channel layouts, parameters and failures of transfers', 'the existing tests run none of these devices; lost, doubled or misdirected messages need particular layouts, empty messages or failures',
  ['fairmq/devices/Proxy.h', 'fairmq/devices/Merger.h', 'fairmq/devices/Splitter.h', 'fairmq/devices/Multiplier.h', 'fairmq/devices/Sink.h', 'fairmq/devices/BenchmarkSampler.h'],
  [('devices', 'fairmq/devices/Merger.h')],
  'event-language inclusion of every receive / copy / send / write / count sequence, loop-bound and provenance analysis of channels, indices and payloads')
