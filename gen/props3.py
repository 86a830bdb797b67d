p('C14', 'Transfers never block beyond an interruption and resume afterwards',
  'No single attempt to send or receive blocks longer than a fixed bound, and after every unsuccessful attempt the transfer asks whether its transport was interrupted and then ends with the interrupted result instead of trying again; waiting for shared memory ends likewise. '
  'A requested device transition interrupts every transport of the device, and entering a state resumes every one of them, from before the first transition on. Interrupting and resuming a transport sets and clears exactly its atomic flag, which starts cleared and nothing else changes.',
  [S, F], 'every moment at which a state change or interruption arrives during a transfer', 'the interruption must hit a blocked transfer; tests cannot place it at each point of every transfer function',
  ['fairmq/zeromq/Socket.h', 'fairmq/shmem/Socket.h', 'fairmq/zeromq/Context.h', 'fairmq/shmem/Manager.h', 'fairmq/Device.cxx'], [('transfer loops', 'fairmq/shmem/Socket.h'), ('interrupting transports', 'fairmq/Device.cxx')],
  'event-language inclusion of the transfer loops, loop-coverage and call-forwarding analysis')
p('C15', 'A transfer ends with byte count, timeout, interrupted or error, as documented',
  'Sending or receiving a message or parts returns the number of payload bytes (the sum over all parts) if and only if the transfer succeeded. After a failed attempt caused by an expired wait or a signal it returns interrupted if the transport was interrupted, else tries again as long as the timeout allows, else returns timeout; any other failure returns error. '
  'A zero timeout never waits, a negative one never gives up by itself, and the time waited adds up over the attempts. All but the last part are sent as incomplete and the last one as complete. The failure codes are negative and distinct.',
  [I, F, S], 'all timeouts, message sizes, part counts and failures of the underlying socket calls', 'tests see only transfers that succeed or time out once; retries, interruptions and errors in the middle of a multipart need faults',
  ['fairmq/zeromq/Socket.h', 'fairmq/shmem/Socket.h', 'fairmq/zeromq/Common.h', 'fairmq/Socket.h'], [('transfer functions', 'fairmq/zeromq/Socket.h'), ('transfer functions', 'fairmq/shmem/Socket.h'), ('retry decision', 'fairmq/zeromq/Common.h')],
  'event-language inclusion on path-sensitive control-flow graphs of all transfer functions')
p('C16', 'Transfer counters count each successful transfer once, in its direction',
  'Every successful send or receive adds exactly one message (all parts together count as one) and exactly the returned number of bytes to the counters of its direction, and a failed one changes no counter. The counters start at zero, are changed by nothing else, and the getters of sockets and channels return the counter of their name.',
  [I, F], 'all transfers, outcomes and part counts', 'tests check totals after a few successful transfers only',
  ['fairmq/zeromq/Socket.h', 'fairmq/shmem/Socket.h', 'fairmq/Channel.h'], [('transfer counters', 'fairmq/shmem/Socket.h'), ('transfer counters', 'fairmq/zeromq/Socket.h')],
  'effect analysis: event-language inclusion and writer enumeration of the counter fields')
p('C35', 'Socket options: each setter and getter uses the option of its name',
  'On both transports the setters and getters of linger, buffer sizes and kernel sizes set and return the data socket\'s option of that name, and a refused option is reported by an exception; options by name are passed on with the given value and size, and every option and socket type name stands for the library constant of that meaning.',
  [I, C], 'all options, names and transports', 'no test reads back the options through the library; a swapped constant compiles and transfers keep working',
  ['fairmq/zeromq/Socket.h', 'fairmq/shmem/Socket.h', 'fairmq/zeromq/Common.h'], [('socket options', 'fairmq/zeromq/Socket.h'), ('constants by name', 'fairmq/zeromq/Common.h')],
  'constant and argument data-flow agreement over all option functions')
p('C17', 'ZeroMQ messages own their buffer: right data, freed once, kept aligned',
  'A zeromq transport message is initialised exactly once by every constructor and rebuild, with the given data, size, free callback and hint, an aligned buffer being freed by its original pointer; rebuilding and destroying close the previous content first, and messages, message wrappers and sockets cannot be copied. A region message hands data, size and hint back to the region\'s bulk callback, or else its callback, right after its data was copied. '
  'SetUsedSize succeeds exactly for a size up to the present one and keeps the data, the smaller view releasing the old message once. Copy shares the given message. A message received with an alignment ends with its data at that alignment. Socket handles are closed once.',
  [S, I, F], 'all constructors, rebuilds, sizes, alignments and sequences of message operations', 'a double free, leak or lost alignment shows only for particular sequences and under a memory checker',
  ['fairmq/zeromq/Message.h', 'fairmq/zeromq/ZMsg.h', 'fairmq/zeromq/Socket.h'], [('message buffer', 'fairmq/zeromq/Message.h'), ('socket handles', 'fairmq/zeromq/Socket.h')],
  'typestate analysis by event-language inclusion, argument data-flow rules, compile-time witnesses')
p('C38', 'The number of connected peers follows every connection event',
  'Asking a socket for its number of connected peers reads every pending event of its monitor, counts each established or accepted connection up and each disconnection down (never below zero), ignores other events, and keeps and returns the result; the monitor reports all three events, has an endpoint of its own (also among sockets of the same name), the count starts at zero and nothing else changes it.',
  [H, I], 'all sequences of connection events', 'tests observe at most a few peers that connect once',
  ['fairmq/zeromq/Common.h', 'fairmq/zeromq/Socket.h', 'fairmq/shmem/Socket.h'], [('peer counting', 'fairmq/zeromq/Common.h'), ('peer getter', 'fairmq/shmem/Socket.h')],
  'event-language inclusion and writer enumeration')
p('C18', 'Shared memory buffers are released exactly once, by their last holder',
  'A shared memory message releases its buffer exactly once: when it is destroyed, rebuilt, overwritten by a received or copied message, or emptied, and only if it still holds it (it was not handed over by a successful send). A buffer shared by copies is freed, or its region block acknowledged with its handle, size and hint, exactly by the holder that finds itself the last one. '
  'Copy adds exactly one holder and takes over all metadata. The holder counters are atomic. SetUsedSize succeeds exactly for a size up to the present one, and never moves or frees a buffer that others hold. Data given with a free callback is copied once and then given back once. Messages cannot be copied or moved by value.',
  [S, I, F], 'all sequences of message operations on messages sharing a buffer, in all processes', 'leaks and double frees show only for particular sharing patterns, region kinds and failures',
  ['fairmq/shmem/Message.h', 'fairmq/shmem/Common.h', 'fairmq/shmem/Socket.h', 'fairmq/shmem/UnmanagedRegionImpl.h'], [('message buffer', 'fairmq/shmem/Message.h'), ('counters', 'fairmq/shmem/Common.h')],
  'typestate (ownership) analysis by event-language inclusion on path-sensitive control-flow graphs, argument data-flow rules, compile-time witnesses')
p('C19', 'Shared memory messages arrive with the metadata they were sent with',
  'Sending over shared memory transmits, for the message or for every part in order, exactly one header holding that message\'s size, hint, handle, counter handle, region id, segment id and kind, preceded for parts by their number, in a message large enough for all of them. '
  'Receiving makes the received message, or one new part per received header in order, take over every field unchanged and forget any previous address. The data of a message is then the buffer named by handle and segment (which is opened before it is used), or the block at that offset of the region of that id.',
  [I, C], 'all messages, part counts, regions and segments on either side', 'a swapped or lost field only shows for messages from other segments, regions, shared copies or with hints',
  ['fairmq/shmem/Socket.h', 'fairmq/shmem/Message.h'], [('sending and receiving metadata', 'fairmq/shmem/Socket.h'), ('taking over metadata', 'fairmq/shmem/Message.h')],
  'abstract interpretation of cursor positions in the metadata message, field data-flow agreement, event-language inclusion')
p('C20', 'Foreign or out-of-range shared memory metadata is refused, not used',
  'A received message too short for a header, or for the number of parts it claims, is refused with an exception before anything from it is used, without arithmetic overflow. '
  'A message made from data in a region is accepted only if data and size lie entirely inside a region of the shared memory transport (for all sizes, without overflow), then referring to exactly that offset, size, hint and region; otherwise it is refused with an exception.',
  [I, F], 'all received bytes, counts, pointers and sizes', 'needs malformed or extreme inputs that no test sends',
  ['fairmq/shmem/Socket.h', 'fairmq/shmem/Message.h'], [('size checks', 'fairmq/shmem/Socket.h'), ('region message', 'fairmq/shmem/Message.h')],
  'guard analysis: linear normal forms of the conditions established on every path')
p('C39', 'Shared memory buffers are as large and aligned as requested',
  'Every buffer allocated in shared memory holds its header and, behind it without overlap, the requested number of bytes starting at a multiple of the requested alignment (at least the fundamental one); requests whose size, alignment or sum exceeds the segment are refused without overflow. '
  'All functions that locate header, holder count and user data of a buffer agree with how it was laid out. Shrinking a buffer in place keeps at least the requested size.',
  [I], 'all sizes, alignments and addresses of the allocated chunk', 'depends on sizes, alignments and chunk addresses; tests use a few',
  ['fairmq/shmem/Common.h', 'fairmq/shmem/Manager.h'], [('buffer layout', 'fairmq/shmem/Common.h'), ('allocation', 'fairmq/shmem/Manager.h')],
  'symbolic linear forms of offsets compared between writer and readers, guard analysis, static_assert witnesses')
