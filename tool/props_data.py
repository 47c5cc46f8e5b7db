CONNF = ['include/salticidae/conn.h', 'src/conn.cpp']
NETF = ['include/salticidae/network.h']
SOUND = ('Sound for the abstraction: all paths of all reachable functions are covered, loops by havoc; trusts the clang AST, the '
         'model of std containers and the stated assumptions. ')

prop('C01', "User callbacks run only on the user's event loop",
     'Every callback the user registers (message handlers, connection, peer, unknown-peer and error callbacks) is invoked only from '
     "tasks executed by the event loop the user passed in, never from an internal thread and never from inside one of the user's own "
     'API calls. No internal lock is held while user code runs, and a callback that was never registered is never invoked.',
     ['schedules', 'programs'], 'all callback kinds, all network classes, all interleavings of internal threads',
     'Tests observe a few callbacks in a few runs; a callback invoked from a worker thread behaves the same in almost every run.',
     CONNF + NETF, [('cross-thread posts to the user loop', 'include/salticidae/conn.h ConnPool::update_conn, recoverable_error'),
                    ('message queue handler', 'include/salticidae/network.h MsgNetwork ctor'),
                    ('peer callbacks', 'include/salticidae/network.h PeerNetwork')],
     'thread-role effect analysis over posted lambdas', SOUND + 'Assumes the user loop is dispatched by one thread.')

prop('C02', 'Internal connection and peer state is free of data races',
     'While the network runs, the I/O state of a connection is touched only by the worker thread serving it (or before it was handed to '
     'a worker, or after that worker gave it up for teardown), and the connection pool and peer records only by the dispatcher thread. '
     'The tables that API callers also consult are read under their lock and changed only while it is held exclusively; no thread '
     'acquires a lock it already holds, and the receiving end of each internal queue is used by one thread only.',
     ['schedules', 'programs'], 'all interleavings of user, dispatcher and worker threads, all API call sequences',
     'A race shows only under a schedule a test cannot force, and often not even then.',
     CONNF + NETF, [('worker hand-over', 'include/salticidae/conn.h Worker::feed; src/conn.cpp accept_client, conn_server'),
                    ('peer table lock', 'include/salticidae/network.h known_peers_lock'),
                    ('client table lock', 'include/salticidae/network.h addr2conn_lock')],
     'thread-ownership and lockset analysis', SOUND + 'The table of owned fields is part of the rule.')

prop('C03', 'Each connection is torn down exactly once and completely',
     'However many threads request it and whenever, a connection is torn down exactly once: it is removed from the pool, announced to '
     'the user as lost and its descriptor closed once each, with every event watching it removed before the close. Every '
     'termination request leads to that teardown, every connection that owns a descriptor is in the pool, and stopping the network '
     'closes each remaining connection once, after all threads have ended.',
     ['schedules', 'histories', 'fault_sequences'], 'all orders of errors, timeouts, user terminations and stop',
     'Needs two terminations racing, or one racing connection establishment; tests terminate a connection once at a quiet time.',
     CONNF + NETF, [('termination', 'src/conn.cpp worker_terminate, disp_terminate, del_conn, release_conn'),
                    ('stop', 'include/salticidae/conn.h ConnPool::stop_workers'), ('claim flag', 'include/salticidae/conn.h Conn::set_terminated')],
     'typestate of the teardown across posted tasks', SOUND)

prop('C04', 'Only whole, in-limit, checksum-verified messages reach a handler',
     'A message is delivered to a handler only if its complete header and exactly the number of payload bytes the header announces '
     'arrived on that connection, the announced length is within the configured maximum, and the checksum carried in the header '
     'matches the payload. A message over the limit ends the connection with an error; a message with a wrong checksum is dropped '
     'and the messages behind it are still delivered.',
     ['inputs', 'histories'], 'every byte stream, every fragmentation of it into receives, every queue-full history',
     'Tests send well-formed messages over loopback; the property is over every byte stream and every split of it.',
     NETF + ['include/salticidae/msg.h', 'include/salticidae/buffer.h'],
     [('message reader', 'include/salticidae/network.h MsgNetwork::on_read'), ('checksum', 'include/salticidae/msg.h MsgBase::verify_checksum'),
      ('dispatch', 'include/salticidae/network.h MsgNetwork ctor queue handler')],
     'path-sensitive typestate over the message reader', SOUND)

prop('C05', 'Received bytes are kept in order and back-pressure always resumes',
     'Every byte the transport delivers on a live connection is appended to the receive stream exactly once and in order, and is '
     'offered to the message reader before the library waits for more. Reading is paused only when the receive buffer is at its '
     'limit or the message queue is full, and every such pause resumes once there is room; a message held back by a full queue is '
     'neither lost nor duplicated. End of stream or a hard receive error ends the connection; a would-block result does not.',
     ['inputs', 'schedules', 'histories'], 'every sequence of receive results, every fill level of buffer and queue',
     'Tests never fill the receive buffer or the message queue at a chosen point.',
     CONNF + NETF, [('receive callbacks', 'src/conn.cpp ConnPool::Conn::_recv_data, _recv_data_tls'),
                    ('reader and retry timer', 'include/salticidae/network.h MsgNetwork::on_read, on_worker_setup')],
     'typestate analysis of receive callbacks and reader', SOUND + 'Assumes level-triggered readiness and a message that fits the buffer.')

prop('C06', 'Queued outgoing bytes are handed to the transport once and in order',
     'Every block of bytes accepted for sending on a connection is offered to the transport whole and in acceptance order; what the '
     'transport did not take is kept at the head of the queue and nothing behind it is sent before it. A send failure other than '
     'would-block ends the connection, a transient one does not, and a write reports failure exactly when its bytes were not queued '
     'because the configured capacity was reached. Messages a lost peer connection left unsent go out on the next one whole, once and in order, '
     'except a message already partly sent.',
     ['inputs', 'schedules', 'fault_sequences'], 'every sequence of full, partial, empty and failed sends, plain and TLS',
     'Tests rarely see a partial or failed send, and never at a chosen byte offset.',
     CONNF + ['include/salticidae/buffer.h'], [('send callbacks', 'src/conn.cpp ConnPool::Conn::_send_data, _send_data_tls'),
                                               ('send buffer', 'include/salticidae/buffer.h MPSCWriteBuffer')],
     'typestate analysis of send callbacks', SOUND)

prop('C07', 'A live connection never stops watching a direction it still needs',
     'While a connection is established, the library stops watching its socket for readability or writability only while it has '
     'recorded that the direction is ready; queueing data on a connection recorded as ready to send starts sending at once, and '
     'readiness events always run the function of the direction that became ready. No sequence of pauses, resumes and sends leaves '
     'pending data in a direction that is neither watched nor recorded as ready.',
     ['schedules', 'histories'], 'every order of read, write, queue and resume events on a connection',
     'A lost interest bit shows only under a particular order of buffer-full, partial-send and queue events.',
     CONNF + NETF, [('interest mask updates', 'src/conn.cpp _send_data/_recv_data; include/salticidae/conn.h enable_send_buffer, update_conn'),
                    ('resume', 'include/salticidae/network.h MsgNetwork::on_read')],
     'flag/mask consistency analysis on every task path', SOUND)

STF = ['include/salticidae/stream.h', 'include/salticidae/msg.h', 'include/salticidae/netaddr.h']

prop('C08', 'What is encoded decodes to the same value, field for field',
     'For every format the library puts on the wire (message header, 256-bit value, bit vector, network address, list of hashes, handshake '
     'request and answer) the decoder takes the items in the order, width and byte order the encoder emits them (host-independent '
     'little-endian, addresses in network order) and stores each in the field it came from, and element counts match. Writing to a stream '
     'appends exactly the given bytes, reading takes the bytes at the read position, and copying, moving or swapping a stream or message '
     'preserves its contents. A message built for sending carries the size and checksum of its payload, and the declared header size is '
     'what the encoder emits.'.replace('. A message built', '; a message built'),
     ['inputs'], 'every value of every wire type, every read position of a stream',
     'Tests encode a handful of values; a wrong width, order, count or a lost field needs a value that shows it.',
     STF + NETF, [('stream', 'include/salticidae/stream.h DataStream, Blob, _Bits'), ('header', 'include/salticidae/msg.h MsgBase'),
                  ('handshake', 'include/salticidae/network.h MsgPing, MsgPong'), ('address', 'include/salticidae/netaddr.h NetAddr')],
     'encoder/decoder trace comparison on the abstract paths', SOUND)

prop('C09', 'Decoding never reads past the data or allocates beyond it',
     'Whatever the bytes, reading from a stream that holds too few of them raises an exception instead of touching memory outside it, the '
     'read position never passes the end (also after exceptions, clearing, moving and reloading), and the bound checks cannot be defeated by '
     'arithmetic wrap-around. A count taken from the wire is checked against the remaining data before memory is allocated for it; a '
     'fixed-size value is only built from exactly as many bytes, and a message payload can be taken once.',
     ['inputs'], 'every byte sequence, every sequence of stream operations',
     'Tests decode what the library encoded; the property is about everything else.',
     STF + NETF, [('stream reads', 'include/salticidae/stream.h DataStream::operator>>, get_data_inplace'),
                  ('wire counts', 'include/salticidae/stream.h _Bits::unserialize; include/salticidae/msg.h MsgBase::parse_hash_list'),
                  ('payload', 'include/salticidae/msg.h MsgBase::get_payload')],
     'interval analysis with wrap-around obligations', SOUND + 'Not claimed for builds with SALTICIDAE_NOCHECK.')

QF = ['include/salticidae/queue.h']
EVF = ['include/salticidae/event.h']

prop('C10', 'Internal queues publish, claim and recycle slots safely',
     'An element is read from an internal queue only by the one consumer that claimed its slot, and only after the producer that claimed '
     'the slot finished storing it; memory of the queue is not reused while another thread may still be working in it. Queueing reports '
     'success exactly when the element was stored and fails only if the caller asked for a bounded queue and no spare memory is left; '
     'dequeueing reports empty only after finding the queue so, and an element put back is the next one taken.',
     ['schedules', 'histories'], 'every interleaving of producers and consumers, every fill level of a block',
     'The windows are a few instructions wide and some need a block of 4096 elements to be recycled at that moment.',
     QF, [('enqueue', 'include/salticidae/queue.h MPMCQueue::_enqueue'), ('dequeue', 'include/salticidae/queue.h MPMCQueue::try_dequeue, MPSCQueue::try_dequeue, rewind'),
          ('block recycling', 'include/salticidae/queue.h FreeList')],
     'per-operation protocol analysis of the lock-free code', SOUND + 'Decides the per-operation protocol, not linearizability.')

prop('C11', 'With TLS on, no byte or user event bypasses a completed handshake',
     'With TLS enabled, every connection gets a TLS session on its own socket, accepting exactly when the connection was accepted; no application byte is '
     'sent or received outside it, and no connection is set up, read or announced, before its handshake has completed and the certificate of the remote was recorded. '
     'A handshake waits for exactly the direction the session asks for; a failed one ends the connection with an error. '
     'The configured certificate and key are used and must fit, the certificate of the remote is asked for and checked unless configured off, and the outcome of an operation '
     'is never judged by errors left over from other connections.',
     ['schedules', 'inputs'], 'every interleaving of socket events and every outcome of a TLS operation',
     'Tests handshake with well-behaved local peers; no handshake fails or stalls half-way.',
     CONNF + ['include/salticidae/crypto.h'], [('session', 'include/salticidae/conn.h Worker::feed'), ('handshake', 'src/conn.cpp _send_data_tls_handshake, _recv_data_tls_handshake'),
            ('outcome', 'include/salticidae/crypto.h TLS::do_handshake')],
     'effect and typestate analysis of TLS sessions over all paths and posts', SOUND + 'TLS itself is OpenSSL\'s.')

prop('C12', 'Queueing work for another thread always wakes that thread',
     'Whenever an element was stored in an event-driven queue, the consuming event loop has been signalled or is known to be due to look at '
     'the queue after that moment, so no element waits for unrelated traffic. A consumer that stops before the queue is empty schedules '
     'itself again, unless the network was stopped.',
     ['schedules'], 'every interleaving of enqueueing with the consumer waking up, draining and going back to sleep',
     'A lost wake-up needs an enqueue between two adjacent statements of the consumer.',
     EVF + NETF, [('signalling', 'include/salticidae/event.h MPSCQueueEventDriven, MPMCQueueEventDriven, NotifyFd'),
                  ('draining', 'include/salticidae/event.h ThreadCall ctor; include/salticidae/network.h MsgNetwork ctor')],
     'ordering analysis of the wake-up protocol', SOUND)

prop('C13', 'Cross-thread calls run once and return their result or error',
     'A function posted to another thread is executed there exactly once, unless that thread stopped taking calls. A blocking caller is '
     'answered exactly once, after the call ran, with the value it produced (read with the type it was stored with) or the exception it '
     'raised or the error that the receiver was stopped; an exception never escapes into the receiving loop, and no internal thread and no '
     'thread holding a lock ever blocks in such a call.',
     ['schedules', 'fault_sequences', 'programs'], 'every posted function, every exception, every order of posting, stopping and answering',
     'Failures and stopped receivers are not tested, and a use of the caller\'s stack after it was woken needs one exact interleaving.',
     EVF + CONNF + NETF, [('call receiver', 'include/salticidae/event.h ThreadCall'), ('answer', 'include/salticidae/event.h ThreadNotifier'),
                          ('callers', 'include/salticidae/conn.h connect_sync, listen; include/salticidae/network.h PeerNetwork')],
     'typestate of call records, exception edges, call-site roles', SOUND)

REFF = ['include/salticidae/ref.h']

prop('C14', 'Smart handles keep their counts exact and destroy each object once',
     'A shared object is destroyed exactly once, when the last strong handle to it is gone, and its counter block exactly once, when the last '
     'handle of any kind is gone, whatever copies, moves, conversions, casts, (self-)assignments and drops led there and even if handles to '
     'it are dropped concurrently; a weak handle never yields an object whose last strong handle is gone. An exclusive object has one owner '
     'that destroys it once unless it gave it up; a handle that was moved from is empty.',
     ['histories', 'schedules', 'programs'], 'every sequence of operations on handles to one object, every interleaving of counter updates on an atomic handle',
     'A count that is off by one shows only after a particular history, and a lost race only under one interleaving.',
     REFF, [('exclusive', 'include/salticidae/ref.h BoxObj'), ('shared', 'include/salticidae/ref.h RcObjBase, WeakObjBase'),
            ('counters', 'include/salticidae/ref.h _RCCtl, _ARCCtl')],
     'conservation accounting over all paths of all handle operations', SOUND)

prop('C15', 'An event calls back into its current owner and its handle is closed once',
     'An event object that is created, moved, swapped or assigned keeps exactly one loop handle, which calls the callback of the event object '
     'that holds it now; clearing or destroying it stops and closes that handle exactly once, freeing it only after the loop is done with it. '
     'Arming passes on the descriptor, events, time or signal asked for, errors of the loop are raised, a timer fires once per arming, and a '
     'descriptor event with a time-out is told apart from activity and re-armed by it.',
     ['histories', 'programs'], 'every sequence of operations on event objects, every failure of the loop functions',
     'A stale back pointer shows only when an event fires after a move; a double close only after a particular sequence.',
     EVF, [('events', 'include/salticidae/event.h FdEvent, TimerEvent, TimedFdEvent, SigEvent, CheckEvent')],
     'ownership analysis of loop handles over all paths', SOUND)

prop('C16', 'A failed asynchronous request is reported once, under the id it returned',
     'Every asynchronous request draws its own id, is handed to the internal threads once and returns that id; if its work fails, including '
     'a message that could not be queued, the registered error callback is invoked exactly once on the user loop with the error and that '
     'id, and it is not invoked for a request that succeeded. An error that is none of the request\'s own, or that ends a dispatcher or '
     'worker, is reported as fatal once and the dispatcher takes no more calls.',
     ['fault_sequences', 'schedules'], 'every request of all three networks, every exception its work can raise',
     'Failures of asynchronous requests are rare and their reports are not tested.',
     CONNF + NETF, [('requests', 'include/salticidae/network.h send_msg_deferred, connect, *_peer requests, multicast'),
                    ('reports', 'include/salticidae/conn.h recoverable_error, disp_error_cb, worker_error_cb, gen_async_id')],
     'exception-edge analysis of posted functions', SOUND)

prop('C17', "Only a handshake under the registered identity makes a peer connected",
     'A peer becomes connected only by a handshake over a live connection whose identity (certificate, or address where identities are '
     'address-based) is the one registered, accepted inbound by a greeting and outbound by its reply from the address on record, and '
     'while the peer is disconnected. Of two crossing connections both sides keep the one whose initiator drew the smaller number, and '
     'that connection becomes the one of the peer. A greeting from an unregistered identity is reported once with its address and '
     'certificate and its connection is terminated.',
     ['inputs', 'histories', 'schedules'], 'every message content, every order of crossing handshakes, every peer state',
     'Tests connect well-behaved peers; an impostor, a crossing handshake or a reply on the wrong connection never occurs.',
     NETF, [('handshake handlers', 'include/salticidae/network.h PeerNetwork::ping_handler, pong_handler, finish_handshake'),
            ('greeting', 'include/salticidae/network.h PeerNetwork::on_dispatcher_setup'), ('identity', 'include/salticidae/network.h PeerNetwork::get_peer_id')],
     'path-sensitive guard analysis of handshake handlers', SOUND + 'The certificate itself is trusted to have been verified as configured.')

prop('C18', 'Each peer connection and loss is announced once; attempts stay in limit',
     'A peer that becomes connected, and the end of its connection or attempt, are announced to the user exactly once each, with that '
     'connection; a connection that is no peer\'s is never announced and changes no record. While a peer is disconnected a further attempt '
     'to its address is scheduled exactly when attempts are left, and attempts made are counted. A record and its connections refer to '
     'each other only while both hold the bond, so no connection refers to a removed record.',
     ['histories', 'schedules', 'fault_sequences'], 'every history of connects, losses, resets, removals and retries',
     'Tests lose a connection once or twice; the property is over every interleaving of losses, retries and requests.',
     NETF, [('tear-down', 'include/salticidae/network.h PeerNetwork::on_dispatcher_teardown'), ('attempts', 'include/salticidae/network.h PeerNetwork::start_active_conn, conn_peer'),
            ('announcement', 'include/salticidae/network.h PeerNetwork::finish_handshake')],
     'inductive invariant over all dispatcher paths that change a peer record', SOUND)

prop('C19', 'A request acts on the peer or client it names, or fails as documented',
     'A request by peer id or client address acts only on the record registered under it: a missing one fails with the not-exist error, adding '
     'a registered one with the already-exists error, connecting one without an address with the not-ready error, and a failed request '
     'has no effect. Otherwise the request takes effect as asked (the record added, removed with its connections terminated, '
     'readdressed, reset and attempted, queried), and a message is queued exactly once on the current connection of each peer or client '
     'named, or the failure to queue it is returned or reported.',
     ['inputs', 'histories'], 'all requests, all ids and addresses, all states of the record',
     'Tests issue requests in the order of normal use; failing requests are hardly exercised.',
     NETF, [('peer requests', 'include/salticidae/network.h PeerNetwork::add_peer, del_peer, set_peer_addr, conn_peer, get_peer_conn, has_peer'),
            ('sends', 'include/salticidae/network.h _send_msg, _send_msg_deferred, _multicast_msg'), ('client table', 'include/salticidae/network.h ClientNetwork')],
     'effect analysis of each path against the facts known of the record', SOUND)

prop('C20', 'Every peer connection has a time-out that only an answered heartbeat defers',
     'The time-out of a connection in a peer network is started at its set-up with the configured time, restarted only when a heartbeat is sent on that connection, '
     'and terminates the connection when it fires. A peer is sent a heartbeat when it becomes connected, and a further one '
     'exactly when the period has elapsed and the last one was answered over the peer\'s own connection. Every heartbeat received is '
     'answered exactly once on the connection it came on.',
     ['schedules', 'histories'], 'every order of timer expiries, pings and pongs',
     'Tests run for a few seconds with default times; no heartbeat is ever missed or duplicated.',
     NETF, [('time-out', 'include/salticidae/network.h PeerNetwork::tcall_reset_timeout, on_worker_setup'),
            ('heartbeat', 'include/salticidae/network.h Peer::send_ping, ping_timer; ping_handler, pong_handler')],
     'typestate of timers and heartbeat flags over all paths', SOUND + 'That a started timer fires is libuv\'s.')

prop('C21', 'A network starts its threads once and outlives all of them',
     'Starting a network creates one thread for every configured worker (at least one), and only the first time. '
     'Stopping it, or destroying it, also after a fatal error, tells every worker to end, waits for each thread exactly once, and only then takes down, marks as '
     'terminated and releases every connection left; stopping again does nothing, and no member of a network is destroyed while its threads may run. '
     'A new connection is handed exactly once to one existing worker, the one it names.',
     ['histories', 'schedules'], 'every number of workers, every order of start, stop and destruction, every set of connections left',
     'Tests start and stop a network once, with a worker or two.',
     CONNF + NETF, [('start and stop', 'include/salticidae/conn.h ConnPool::start, stop_workers, stop'), ('destructors', 'include/salticidae/network.h ~MsgNetwork, ~PeerNetwork, ~ClientNetwork'),
                    ('workers', 'include/salticidae/conn.h ConnPool::ConnPool, select_worker, Worker; src/conn.cpp accept_client, conn_server')],
     'loop-coverage and ordering analysis over all paths', SOUND + 'A thread can be created; stop is not called from a thread of the network.')

prop('C22', 'A failure on a network thread is contained, reported and confined',
     'An error raised while a network thread accepts, connects, sets up, reads, writes or parses - in an event callback or a task posted to it '
     'without a waiting caller - is caught in that task and handed to the error callback exactly once, as the error it is, and never ends the thread. '
     'A failure in serving a connection ends that connection and no other, also when decoding a message or its registered handler raises a standard exception. '
     'A worker thread only runs its event loop, with signals blocked; a worker\'s internal failure is passed on to the dispatcher\'s fatal report.',
     ['inputs', 'fault_sequences', 'schedules'], 'every failing call in every task of the network threads',
     'Tests make no system, TLS or parsing call fail inside a network thread.',
     CONNF + NETF, [('worker tasks', 'include/salticidae/conn.h ConnPool::Worker'), ('error reports', 'include/salticidae/conn.h recoverable_error, disp_error_cb, worker_error_cb'),
                    ('handlers', 'include/salticidae/network.h MsgNetwork::reg_handler, on_read')],
     'exception-edge analysis of every task of the network threads', SOUND + 'Starting an event already set up, hashing and allocation are taken not to fail.')

prop('C23', 'Descriptors, files and crypto objects are released exactly once',
     'Every socket, file and cryptographic object (key, certificate, session, context, encoded buffer) the library obtains is, on every path including failures, '
     'either released exactly once and not used afterwards, or handed to exactly one object that releases it when destroyed; such objects cannot be copied, and moved-from ones release nothing. '
     'A failure part-way through construction or loading leaks nothing, and no exception is thrown through a callback of the C libraries.',
     ['inputs', 'fault_sequences'], 'every combination of failing system and library calls',
     'Tests never make a system or OpenSSL call fail, and a leak or double release of such an object shows in none.',
     CONNF + ['include/salticidae/crypto.h', 'src/crypto.cpp', 'include/salticidae/event.h', 'src/util.cpp'],
     [('sockets', 'src/conn.cpp ConnPool::accept_client, _connect, _listen'), ('crypto', 'include/salticidae/crypto.h PKey, X509, TLSContext, TLS')],
     'ownership analysis over all paths', SOUND + 'The descriptor of a registered connection is C03\'s. Memory allocation is taken not to fail.')

prop('C24', 'Threads using different objects share no hidden state',
     'Library state that is not part of an object is constant, private to a thread, atomic or changed only under a lock, so different objects may be used by different threads at once: '
     'no operation changes other process-wide state or calls a C library function that keeps its result or position in shared memory. '
     'A thread\'s private scratch state does not carry over from one operation to the next, and a log message is written in one piece.',
     ['schedules'], 'all threads using networks, messages, keys, addresses, options and the log at once',
     'Tests run few threads, rarely in the same function, and hidden state shows only when two are in it together.',
     ['src', 'include/salticidae'], [('checksum state', 'include/salticidae/msg.h MsgBase::get_checksum'), ('password for the PEM reader', 'include/salticidae/crypto.h _passwd'),
      ('log', 'src/util.cpp Logger::write, get_current_datetime'), ('address resolution', 'include/salticidae/netaddr.h NetAddr::set_by_ip_port')],
     'effect analysis of every variable with static storage and of every call to the C library', SOUND + 'The C library is glibc; options are parsed by one thread.')

prop('C25', 'The C interface does what the C++ operation it names does',
     'Each function of the C interface performs the operation it names exactly once, on the object and with the arguments it is given, in order, and returns its result; '
     'it moves from an argument only where its name says so, a free function deletes exactly what it is given, and every error code has a description of its own. '
     'A function with an error argument sets it to no error on success and otherwise to the error raised, a failure returns null or false, and no exception leaves a function '
     'that can report a failure this way or that returns a new object. '
     'A registered callback is called once per event with the event\'s arguments in order and its own user data.',
     ['inputs', 'fault_sequences'], 'every function of the C interface, every argument, every error the library raises in it',
     'Tests call a few of the C functions, on paths that succeed.',
     ['src/network.cpp', 'src/stream.cpp', 'src/event.cpp', 'src/netaddr.cpp', 'src/crypto.cpp', 'src/msg.cpp', 'src/type.cpp', 'src/util.cpp', 'include/salticidae/util.h'], [('C functions', 'extern "C" functions of src/*.cpp'), ('errors', 'include/salticidae/util.h SALTICIDAE_CERROR_TRY, SalticidaeError; src/util.cpp salticidae_strerror')],
     'wrapper conformance: all paths of every extern "C" function compared with its name and signature, with exception edges', SOUND + 'Allocation does not fail; the name of a C++ operation says what it does.')

prop('C26', 'Text becomes exactly the value it spells, or the documented error',
     'An address, an option value or hexadecimal text is accepted only if all of it spells a value, which is then kept unchanged (a port is between 0 and 65535, hexadecimal text has an even '
     'number of digits), and otherwise refused with the library\'s error (hexadecimal text: an invalid argument), leaving an option as it was; two addresses are equal exactly if host and port '
     'are, and equal ones hash alike. Bytes are printed as two digits each, and trimming, splitting and formatting lose no part of the text. An option registered under a free name is applied '
     'once, with its own text and action, wherever the configuration file or the command line names it by name or letter, the file before the command line; taken names, unknown options, unknown '
     'actions and overlong lines are refused.',
     ['inputs'], 'every text, every set of options, every configuration file and command line',
     'The tests parse a few well-formed addresses and options; malformed text and boundary values are not among them.',
     ['include/salticidae/netaddr.h', 'include/salticidae/util.h', 'src/util.cpp', 'include/salticidae/stream.h'], [('addresses', 'include/salticidae/netaddr.h NetAddr'),
      ('option values', 'include/salticidae/util.h Config::OptVal and its subclasses'), ('options', 'src/util.cpp Config::add_opt, update, load, parse'),
      ('hexadecimal', 'include/salticidae/stream.h DataStream::get_hex, load_hex'), ('text', 'src/util.cpp trim, split, vstringprintf')],
     'value-flow analysis over all paths, with the contracts of the standard parsers and exception edges', SOUND + 'Numbers are parsed with the standard library\'s parsers, which skip leading white space.')

prop('C27', 'A network runs with the settings, ports and addresses it was given',
     'Every setting of a network configuration is stored as given (at least one worker), taken over by the network created from it, never changed and consulted: the receive chunk size, buffer '
     'limit and send capacity by every connection before it is served, capacity and batch size by the message queue, backlog and time-out by listening and connecting, the magic number by every '
     'message sent. A network listens on the port given, a new listening replacing the previous one, and requests connections to exactly the address given. Every socket is non-blocking before it '
     'is used, and every connection has its own descriptor, direction and remote address recorded before it is served.',
     ['inputs', 'histories'], 'every configuration, port and address',
     'Tests use the defaults or a few values and would not notice a limit or time-out that is not the one configured.',
     CONNF + NETF, [('settings', 'include/salticidae/conn.h ConnPool::Config; include/salticidae/network.h MsgNetwork::Config, PeerNetwork::Config'),
      ('sockets', 'src/conn.cpp ConnPool::accept_client, _connect, _listen'), ('message queue', 'include/salticidae/network.h MsgNetwork constructor')],
     'value-flow analysis from setters to effects over all paths', SOUND)

na('C28', 'Internal queues deliver each element once, in the order of its producer',
   'Under any interleaving of producers and consumers every element stored in an internal queue is taken out exactly once, and the elements of one producer in the order it stored them; '
   'a queue that never becomes empty does not starve a producer or consumer for ever.',
   ['schedules'], 'all interleavings of enqueue and dequeue under the C++ memory model',
   'A test runs a vanishing part of the interleavings, on one memory model.',
   ['include/salticidae/queue.h'], [('queues', 'include/salticidae/queue.h MPMCQueue, MPSCQueue, FreeList')],
   'Exactly-once delivery in order is a linearizability argument over all interleavings of a lock-free algorithm (block numbers, hand-over between blocks, recycling); deciding it needs a model '
   'checker or a proof. The local conditions it rests on - claim, publish, read, recycle, with their memory orders - are decided statically as C10.')

na('C29', 'A message accepted for a live connection reaches the handler of the remote',
   'A message that a send accepted on a connection that stays up is handed to the handler registered by the remote within finite time, and an idle network makes progress on every connection.',
   ['schedules', 'histories'], 'all schedules of both processes and all behaviours of the transport between them',
   'Tests see the runs in which it happens.',
   ['include/salticidae/network.h', 'src/conn.cpp', 'include/salticidae/event.h'], [('paths of a message', 'src/conn.cpp ConnPool::send_data, recv_data; include/salticidae/network.h MsgNetwork::on_read')],
   'Eventual delivery quantifies over fair schedules of several threads in two processes and over the transport; no static argument in reach bounds it. The safety conditions on the way - nothing '
   'lost, reordered, unwatched or unsignalled - are decided as C04, C05, C06, C07 and C12.')

na('C30', 'Heartbeats, time-outs and retries happen at the configured times',
   'A heartbeat is sent, a silent connection ended and a further attempt made within the configured time, give or take the randomisation documented.',
   ['schedules'], 'all clock readings and all loads of the event loops',
   'A test can only observe times on an idle machine, with a tolerance.',
   ['include/salticidae/network.h', 'include/salticidae/event.h'], [('timers', 'include/salticidae/network.h PeerNetwork::ping_timer, check_handshake, conn_peer'), ('clock', 'include/salticidae/event.h TimerEvent')],
   'When a timer callback runs depends on the clock, on libuv and on what else the loop does; that is not in the source. Which timer is started with which configured time, and when, is decided as '
   'C15, C18 and C20.')

na('C31', 'No sequence of remote messages makes the process abort',
   'Whatever a remote sends, in whatever order and at whatever moment, no assertion of the library fails and the process keeps running.',
   ['inputs', 'schedules', 'histories'], 'all messages, orders and interleavings with local requests',
   'Tests exchange well-formed messages in the usual order.',
   ['include/salticidae/network.h', 'src/conn.cpp'], [('assertions', 'include/salticidae/network.h, src/conn.cpp, include/salticidae/conn.h assert')],
   'Whether an assertion can fail depends on relations between the state of several objects built up over a history of messages on several threads; the path-wise abstraction used here forgets '
   'them between tasks, and would report every assertion. What is decided: no exception ends a thread (C22), no decoder reads out of bounds (C09), identities are checked before records change (C17).')
