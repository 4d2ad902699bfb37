#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here in a readable form)."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))

SEAT, CLI, SRV, POL, CON = 'seatd/seat.c', 'seatd/client.c', 'seatd/server.c', 'seatd/poller.c', 'common/connection.c'
LSD, LOGIND, NOOP, LIB = 'libseat/backend/seatd.c', 'libseat/backend/logind.c', 'libseat/backend/noop.c', 'libseat/libseat.c'

prop('C01', 'At most one active client per seat',
     'On every seat at most one client at a time holds the seat: once a client has been made active, no other client of that seat is made active (or told that the seat is enabled) until that client has acknowledged a disable request, closed the seat, or disconnected. Only a client that is a member of the seat can hold it.',
     ['histories', 'schedules', 'fault_sequences'],
     'every sequence of client requests, connects, disconnects, VT signals and kernel failures, any number of clients and devices',
     'No existing test runs the seat logic at all; a test could only sample a few interleavings of clients, acks and VT signals.',
     [SEAT, CLI], [('active client is checked before a client is opened', 'seatd/seat.c seat_open_client'), ('active client is cleared only on ack or removal', 'seatd/seat.c seat_ack_disable_client, seat_remove_client')],
     [('seat.active_client', 'the client holding the seat', 'include/seat.h')], ['enable/disable events on the client sockets'])

prop('C02', 'Device access is revoked before a client loses the seat',
     'Whenever a client stops being active - it is asked to disable, closes the seat, disconnects, or is removed - the server has asked the kernel to revoke every device it still holds (drop DRM master, revoke evdev, revoke hidraw) before the disable event is sent and before any other client becomes active. A device is treated as revoked only if the kernel accepted the revocation, and a device closed for the last time is revoked before its file descriptor is closed.',
     ['histories', 'inputs', 'fault_sequences'],
     'every history of opens, closes, switches and disconnects; every number and mix of devices; every pattern of kernel revocation failures',
     'Tests never open devices or switch seats; the guarantee ranges over unbounded device lists and failure patterns.',
     [SEAT, 'common/drm.c', 'common/evdev.c', 'common/hidraw.c'],
     [('deactivation loop over all devices before the disable event', 'seatd/seat.c seat_disable_client'), ('deactivation before close', 'seatd/seat.c seat_close_device')],
     [('seat_device.active', 'device has not been revoked', 'include/seat.h')], ['ioctl(DRM_IOCTL_DROP_MASTER / EVIOCREVOKE / HIDIOCREVOKE) calls'])

prop('C03', 'Device opening is gated and sanitised',
     'The server opens a device only for the client that is currently active on its seat, only if the canonical form of the requested path lies in a supported device class (evdev, DRM or hidraw prefixes), and opens exactly that canonical path, without following a final symbolic link, close-on-exec and without becoming controlling terminal. A client never holds more than 128 distinct devices; a refused request opens nothing and is answered with an error.',
     ['inputs', 'histories'],
     'every requested path, every canonicalisation result, every client state, every number of open devices',
     'No test exercises device opening; paths and histories are unbounded.',
     [SEAT, 'common/drm.c', 'common/evdev.c', 'common/hidraw.c', 'common/wscons.c'],
     [('state check, realpath, class check, device count check, open flags', 'seatd/seat.c seat_open_device')], (), ['open(2) calls of the server', 'SERVER_ERROR responses'])

prop('C04', 'Device identity and reference counting',
     'All devices a client holds have distinct positive ids and distinct canonical paths; opening a path that is already open returns the same device id and adds one reference. The device stays open, under the same id, until it has been closed as many times as it was successfully opened (or the client leaves the seat), and closing or looking up an id the client does not hold fails and changes nothing.',
     ['histories', 'inputs'],
     'every sequence of opens and closes of any paths and ids, any number of devices',
     'No test opens devices; the property ranges over unbounded histories.',
     [SEAT, CLI], [('reuse by canonical path and id allocation', 'seatd/seat.c seat_open_device'), ('reference counting', 'seatd/seat.c seat_close_device'), ('lookup', 'seatd/seat.c seat_find_device')],
     [('seat_device.ref_cnt', 'number of outstanding opens', 'include/seat.h'), ('seat_device.device_id', 'id given to the client', 'include/seat.h')], ['DEVICE_OPENED/DEVICE_CLOSED replies'])

prop('C05', 'Device file descriptors are neither leaked nor double closed',
     'Every file descriptor the server obtains while serving a client (device descriptors, duplicates made for sending, terminal descriptors, the accepted socket) is owned by exactly one holder and closed exactly once: devices on last close, seat close or disconnect, duplicates after being sent or when they cannot be queued, terminals before the operation returns. No operation, whether it succeeds or fails at any step, leaves a descriptor open that nothing owns.',
     ['histories', 'fault_sequences'],
     'every history and every failure point (open, dup, queueing, allocation, ioctl failures)',
     'Failure paths (dup failure, full fd queue, allocation failure) are not reached by any test.',
     [SEAT, CLI, SRV], [('close on every failure path', 'seatd/seat.c seat_open_device, seatd/client.c handle_open_device'), ('terminal fds', 'seatd/seat.c vt_open, vt_close, vt_switch, vt_ack, seat_update_vt')],
     (), ['open/dup/close calls of the server'])

prop('C06', 'Session switch requests',
     'A session switch is accepted only from the active client and only for a positive session number (otherwise EPERM or EINVAL and nothing changes); asking for the own session, or while a switch is already queued, succeeds without effect. On a seat without VTs the request for an existing other session queues exactly that client and disables the requester, and an unknown session is refused with EINVAL; on a VT-bound seat the kernel is asked to switch to exactly the requested VT, and the requester stays active until the kernel asks for the VT.',
     ['inputs', 'histories'], 'every session value, every client state, every set of sessions, every switch already queued',
     'No test runs the switch logic.', [SEAT, CLI], [('request validation and queueing', 'seatd/seat.c seat_set_next_session')],
     [('seat.next_client', 'client queued for activation', 'include/seat.h')], ['SESSION_SWITCHED replies, VT_ACTIVATE ioctl, disable events'])

prop('C07', 'Client lifecycle: enable, disable and ack alternate',
     'A client is sent an enable event only when it is a newly added or disabled member of the seat, and a disable event only when it is active, so that on every connection enables and disables alternate, starting with an enable. A disable acknowledgement is accepted only from a client that has been asked to disable; from any other client it is refused with EBUSY and changes nothing, and a client that left a seat is never enabled again and cannot open a seat again.',
     ['histories', 'schedules', 'inputs'], 'every sequence of requests, acks and VT signals from any number of clients',
     'No test drives the client state machine.', [SEAT, CLI], [('state checks on every transition', 'seatd/seat.c seat_open_client, seat_disable_client, seat_ack_disable_client, seat_add_client')],
     [('client.state', 'lifecycle state', 'include/client.h')], ['ENABLE_SEAT/DISABLE_SEAT events per connection'])

prop('C08', 'Seat handover picks the right next client',
     'When the client holding the seat acknowledges disable, closes the seat or disconnects, the seat is offered to the client queued by a switch request if there is one; otherwise on a VT-bound seat to the member whose session is the current VT, and on other seats to the first member, and nobody is activated if there is no such client. The queued switch is consumed by the handover, a client that leaves is never its target, and an acknowledgement from a client that does not hold the seat hands nothing over.',
     ['histories', 'schedules'], 'every history of joins, switches, acks and departures',
     'No test runs the handover logic.', [SEAT], [('target selection', 'seatd/seat.c seat_activate'), ('callers clear or queue the target', 'seatd/seat.c seat_ack_disable_client, seat_remove_client')],
     [('seat.next_client', 'queued client', 'include/seat.h')], ['enable events'])

prop('C09', 'VT release and acquire handshake',
     'When the kernel asks to release the VT of a VT-bound seat, the active client is disabled - devices revoked and disable event issued - before the release is acknowledged, the release is acknowledged whether or not a client was active, and the current VT is unknown until the next acquire. When a VT is acquired the current VT is re-read and acknowledged, and the client belonging to it becomes active only if no other client still holds the seat; on seats that are not VT-bound these signals change nothing.',
     ['histories', 'schedules', 'fault_sequences'], 'every interleaving of VT signals with client requests and acks; every ioctl failure',
     'Tests have no terminals and never deliver VT signals to the seat.', [SEAT, SRV, 'common/terminal.c'],
     [('signal handlers', 'seatd/server.c server_handle_vt_rel, server_handle_vt_acq'), ('release and activate', 'seatd/seat.c seat_vt_release, seat_vt_activate')],
     [('seat.cur_vt', 'current VT or -1', 'include/seat.h')], ['ioctl(VT_RELDISP), disable/enable events'])

prop('C10', 'VT console mode is set up and restored',
     'On a VT-bound seat a client becomes active only after its own VT has been opened and put into process-controlled switching, keyboard-disabled graphics mode; a VT that cannot be opened refuses activation. When a client leaves a VT-bound seat, by closing it or disconnecting in any state, the VT of its session is put back to keyboard-enabled text mode, and no VT belonging to another client still on the seat is reset by that.',
     ['histories', 'fault_sequences'], 'every history of VT sessions, in any client state at departure, any terminal failure',
     'Tests have no terminals.', [SEAT, 'common/terminal.c'], [('vt_open on activation', 'seatd/seat.c seat_open_client'), ('vt_close on removal', 'seatd/seat.c seat_remove_client')],
     (), ['KDSETMODE, KDSKBMODE and VT_SETMODE ioctls per tty'])

prop('C11', 'Session identifiers',
     'Every client on a seat has its own session number, distinct from that of every other member: on a VT-bound seat it is the number of the VT that was current when it joined, so a VT has at most one client, and on other seats numbers are never handed out twice. A client joins only if it is not a member of a seat and has never had a session, a VT-bound seat admits nobody while another client is active or while the current VT is unknown, and a refused join changes neither client nor membership.',
     ['histories', 'inputs'], 'every sequence of joins and departures',
     'No test runs seat membership.', [SEAT], [('admission checks and session allocation', 'seatd/seat.c seat_add_client')],
     [('client.session', 'session number, -1 before joining', 'include/client.h'), ('seat.session_cnt', 'next session number', 'include/seat.h')], ['SEAT_OPENED replies'])

prop('C12', 'Inbound requests are validated and framed exactly',
     'The server acts on a request only when its whole message has arrived, consumes exactly the header plus the size the header announces, and leaves an incomplete message untouched for the next read. Messages with an unknown opcode or with a size that does not fit the opcode, and device paths that are empty, longer than 256 bytes or not terminated exactly at their end, disconnect the client without any other effect on the seat.',
     ['inputs', 'schedules'], 'every byte sequence and every fragmentation of it across reads',
     'No test feeds bytes to the server; the input space is unbounded.', [CLI, CON], [('size checks', 'seatd/client.c client_handle_opcode'), ('restore on incomplete message', 'seatd/client.c client_handle_connection')], (), ['server reaction to bytes written by a client'])

prop('C13', 'Replies: exactly one, well framed, in order',
     'Each accepted request is answered by exactly one response, of the kind that matches the request or an error carrying the errno of the failure, queued in request order with a header size equal to its payload; a device-opened response carries the id of the device and exactly one file descriptor, a duplicate of that device. Enable and disable events are bare headers and never split a response.',
     ['inputs', 'histories', 'fault_sequences'], 'every request in every state with every failure',
     'No test looks at server replies.', [CLI], [('response construction', 'seatd/client.c handle_*'), ('error path', 'seatd/client.c client_send_error')], (), ['bytes and fds sent to the client'])

prop('C14', 'Client teardown is complete and isolated',
     'A client that disconnects, violates the protocol or suffers an I/O error (including end-of-file with an incomplete message buffered) is removed completely: its socket is closed once, its event source removed, its devices closed, its seat membership and any queued activation of it dropped, its memory freed. Other clients of the seat keep their state, except for a handover of a seat the client held, and the server keeps running and accepting, also when accepting a connection fails.',
     ['histories', 'fault_sequences', 'inputs'], 'every point in a session at which the connection can end, for any number of other clients',
     'No test connects clients to a server.', [CLI, SEAT, SRV], [('teardown', 'seatd/client.c client_destroy'), ('removal from seat', 'seatd/seat.c seat_remove_client'), ('accept', 'seatd/server.c server_handle_connection, server_add_client')], (), ['server behaviour towards the remaining clients'])

prop('C15', 'No client or kernel behaviour crashes the daemon',
     'No sequence of client bytes, connects, disconnects, signals and failing system calls makes the daemon dereference an invalid or freed object, run past an array, fail an internal assertion or abort. All of its structures stay consistent between events: lists are well formed, every listed object is live, and back references point to the owning object.',
     ['inputs', 'histories', 'schedules', 'fault_sequences'], 'everything the event loop can be fed',
     'Tests exercise only the list, poller and connection helpers in isolation.', [SEAT, CLI, SRV, POL, CON, 'common/terminal.c'], [('asserts', 'seatd/seat.c, seatd/client.c, seatd/poller.c'), ('abort on impossible device types', 'seatd/seat.c')], (), ['process liveness'])

prop('C16', 'Connections are byte-exact FIFOs',
     'On a connection, the bytes handed to put are sent in the same order, without loss, duplication or corruption, across any number of partial sends and buffer wraps, and the bytes received are returned by get in the same order; get returns either all requested bytes or none, pending reports exactly the number of bytes received and not yet taken, and restore puts back exactly the bytes last taken. Neither direction ever holds more than 256 bytes or touches memory outside its buffer, and end of file is reported even when bytes are pending.',
     ['inputs', 'histories', 'schedules'], 'every sequence of operations, every buffer position including index wrap-around at 2^32, every partial read or write length',
     'The unit test covers a handful of positions and sizes.', [CON], [('ring buffer arithmetic', 'common/connection.c')], [('head, tail', 'free-running indices', 'include/connection.h')], ['sendmsg/recvmsg buffers and get/put results'])

prop('C17', 'File descriptors travel in order and are always closed',
     'File descriptors queued for sending are attached in order to the next successful send and closed exactly once after it; received descriptors are queued in order, and each get_fd returns the oldest one. Descriptors that do not fit the receive queue are closed and the read fails, at most 64 are queued in either direction, and closing a connection closes every descriptor still queued in both directions.',
     ['inputs', 'histories', 'fault_sequences'], 'every number of queued descriptors, every control message layout, every failure of send',
     'The unit test passes one descriptor at a time and never overflows.', [CON], [('cmsg building and decoding', 'common/connection.c build_cmsg, decode_cmsg'), ('closing', 'common/connection.c connection_buffer_close_fds')], (), ['SCM_RIGHTS control messages, close calls'])

prop('C18', 'Poller dispatch',
     'After each poll every live, registered descriptor with events gets its handler called exactly once with its own descriptor, data and precisely the events reported (readable, writable, error, hangup), and no handler of a source that was removed - even by another handler during the same dispatch - is called. Sources added or whose mask changed take effect at the next poll, each with its own descriptor and mask.',
     ['histories', 'schedules', 'inputs'], 'any number of sources, any pattern of adds, removes and mask updates inside handlers, any revents',
     'The unit test uses one or two sources.', [POL], [('pollfds regeneration', 'seatd/poller.c regenerate'), ('dispatch', 'seatd/poller.c dispatch')], [('event_source_fd.killed', 'source was removed', 'seatd/poller.c')], ['handler calls'])

prop('C19', 'Signals are not lost',
     'A signal delivered at any time after registration, including while its own handler runs, makes every live handler registered for it run at least once afterwards, and handlers are never run for a signal that was not delivered. Removing the last live registration for a signal restores its default disposition, and removing one of several keeps the others working.',
     ['schedules', 'histories'], 'every delivery instant relative to poll and handler execution',
     'The unit test raises a signal only between polls.', [POL], [('raised flag and self pipe', 'seatd/poller.c signal_handler, dispatch'), ('disposition', 'seatd/poller.c event_source_signal_destroy')], [('event_source_signal.raised', 'delivered and not handled', 'seatd/poller.c')], ['handler calls, sigaction calls'])

prop('C20', 'libseat delivers seat events in order, exactly once',
     'With the seatd and builtin backends, every enable and disable event received from the server is delivered to the listener exactly once, in the order received, from within a dispatch, open or close call; events that arrive while another call waits for its response are kept and delivered by a later dispatch, never dropped, duplicated, reordered or delivered from inside a device or session call.',
     ['histories', 'schedules', 'inputs'], 'every interleaving of events and responses, any number of events queued',
     'No test runs the client library.', [LSD], [('event queue', 'libseat/backend/seatd.c queue_event, execute_events, read_and_queue')], [('pending_events', 'events received and not delivered', 'libseat/backend/seatd.c')], ['listener callbacks'])

prop('C21', 'libseat connection failure is sticky and reported',
     'With the seatd and builtin backends, once the connection is lost or the server sends something malformed, the failing call reports an error, the socket, its queued descriptors and undelivered events are released exactly once, and every later call except close fails with ENOTCONN without touching the socket. No end of file or fatal read error is ever reported as a successful dispatch.',
     ['histories', 'fault_sequences', 'inputs'], 'every failure point of every call',
     'No test runs the client library.', [LSD], [('error state', 'libseat/backend/seatd.c set_error, cleanup')], [('error', 'sticky failure flag', 'libseat/backend/seatd.c')], ['return values, errno, close calls'])

prop('C22', 'libseat validates responses and preserves server errors',
     'With the seatd and builtin backends, a request succeeds only if the server answered with the matching response of the right size, a device open then returns the id and the descriptor that came with it; a server error makes the call return -1 with exactly the errno the server sent, without breaking the connection, and anything else breaks the connection with EBADMSG. Requests with out-of-range arguments are refused with EINVAL without contacting the server.',
     ['inputs', 'histories'], 'every possible server byte stream and every argument',
     'No test runs the client library.', [LSD], [('header validation', 'libseat/backend/seatd.c read_header'), ('requests', 'libseat/backend/seatd.c open_device, close_device, switch_session, disable_seat')], (), ['return values and errno'])

prop('C23', 'libseat seat name handling',
     'Opening a seat through the seatd or builtin backend succeeds only if the server supplies a seat name that fits in 64 bytes including its terminator, and afterwards the reported seat name is exactly that name, NUL-terminated within its buffer; overlong, inconsistently sized or internally terminated names make the open fail with EBADMSG. No name length makes the library read or write outside the name buffer.',
     ['inputs'], 'every name length and content sent by a server, with or without terminator',
     'No test runs the client library.', [LSD], [('seat name parsing', 'libseat/backend/seatd.c _open_seat')], [('seat_name', 'buffer of 64 bytes', 'libseat/backend/seatd.c')], ['libseat_seat_name'])

prop('C24', 'libseat backend selection and failed opens',
     'Opening a seat with an incomplete listener fails with EINVAL; with a backend named in the environment exactly that backend is tried, and an unknown name fails with EINVAL; otherwise the real backends are tried in order (seatd, logind, builtin), the first success wins and no later one is tried, the noop backend is never chosen implicitly, and if all fail the error is ENOSYS. A failed open through the seatd or builtin backend closes its socket exactly once, frees what it allocated and keeps the errno of the failure; every later library call is forwarded to the backend that opened the seat with the same arguments and result.',
     ['configurations', 'inputs', 'fault_sequences'], 'every environment value, every subset of failing backends, every failure point of an open',
     'No test opens a seat through the library.', [LIB, LSD], [('selection', 'libseat/libseat.c libseat_open_seat'), ('failure path', 'libseat/backend/seatd.c _open_seat')], (), ['which backend is contacted; close calls; errno'])

prop('C25', 'libseat dispatch wakes up for queued events',
     'With the seatd and builtin backends, whenever a device or session call returns with events queued, a ping has been sent whose answer will make the descriptor readable, with at most one ping outstanding, so that a caller polling the descriptor dispatches them; a ping answer is consumed silently. A dispatch with a zero timeout, or one that has already delivered something, never blocks.',
     ['histories', 'schedules'], 'every interleaving of events with calls',
     'No test runs the client library.', [LSD], [('ping', 'libseat/backend/seatd.c check_pending_events'), ('dispatch', 'libseat/backend/seatd.c dispatch')], [('awaiting_pong', 'ping sent and not answered', 'libseat/backend/seatd.c')], ['bytes on the socket; poll calls'])

prop('C26', 'Daemon startup owns its socket',
     'At startup the daemon removes an existing file at the socket path only if it is a socket and the daemon was not told to keep it, and refuses to start otherwise; readiness is announced only after the socket is listening and its ownership and mode are set, and only to a descriptor given on the command line. When it was given an owner the socket gets mode 0770 and then exactly that owner; once serving, the daemon removes its socket on the way out, and its exit status is zero only after an orderly shutdown.',
     ['configurations', 'fault_sequences', 'inputs'], 'every combination of options and failing system calls',
     'No test runs the daemon.', ['seatd/seatd.c'], [('startup', 'seatd/seatd.c main, open_socket')], (), ['unlink, bind, listen, chmod, chown, write calls and exit status'])

prop('C27', 'seatd-launch drops privileges and reports the command status',
     'seatd-launch starts the command only after the daemon announced readiness, the socket was given to the invoking user with mode 0700, and group and then user privileges were dropped successfully; if any of these steps fails the command is never started, the daemon is terminated and the exit status is nonzero. Otherwise the exit status is that of the command, 128 plus the signal number if it was killed, and the daemon is terminated when the command ends.',
     ['fault_sequences', 'inputs', 'schedules'], 'every failing system call, every exit or signal of either child, every interruption',
     'No test runs seatd-launch.', ['seatd-launch/seatd-launch.c'], [('sequence', 'seatd-launch/seatd-launch.c main')], (), ['chown, chmod, setgid, setuid, execvp order; exit status'])

prop('C28', 'Logging is transparent',
     'A log call never changes errno and passes exactly the messages at or below the configured level to the installed handler, once each, with the level, format and arguments given by the caller; messages above the level reach no handler. Installing a NULL handler restores the default one and the level defaults to silent.',
     ['inputs', 'histories'], 'every level, handler and errno value',
     'No test looks at logging.', ['common/log.c'], [('filter and errno save', 'common/log.c _logf')], (), ['handler calls, errno'])

prop('C29', 'Terminal and device primitives issue the right request',
     'Each terminal and device primitive issues exactly the kernel request that its name promises on the descriptor it was given, with the argument meaning enable or disable as asked (process switching with release and acquire signals, keyboard, graphics, switch, release and acquire acknowledgement, DRM master, evdev and hidraw revoke), and reports failure exactly if the kernel refused. A path is classified as DRM, evdev or hidraw exactly if it starts with the corresponding device directory prefix, and a terminal is opened read-write without becoming controlling terminal, at the path of exactly the requested VT.',
     ['inputs', 'fault_sequences'], 'every argument, every path, every kernel answer',
     'No test has terminals or devices.', ['common/terminal.c', 'common/drm.c', 'common/evdev.c', 'common/hidraw.c'], [('ioctl wrappers', 'common/*.c')], (), ['open and ioctl calls'])

prop('C30', 'Linked list operations keep sequences intact',
     'Inserting puts the element directly after the given position and changes no other order; removing takes out exactly that element and leaves it detached; taking moves the whole source, in order, to the front of the target and leaves the source empty; empty is reported exactly for lists without elements. All lists not named in the call are untouched.',
     ['inputs', 'histories'], 'lists of any length, any position',
     'The unit test uses lists of up to three elements.', ['common/linked_list.c'], [('pointer updates', 'common/linked_list.c')], (), ['list traversal'])

prop('C31', 'logind backend: device bookkeeping and event handling',
     'With the logind backend, pausing or resuming a device is acknowledged as logind requires, the listener is told of enable and disable exactly when the session becomes active or inactive, and property values are read without writing outside the variable they belong to.',
     ['histories', 'inputs'], 'every sequence of D-Bus signals and property changes',
     'No test talks to logind.', [LOGIND], [('signal handlers', 'libseat/backend/logind.c')], (), ['D-Bus calls, listener callbacks'])

prop('C32', 'A requested switch eventually completes',
     'If the active client acknowledges its disable request and the kernel completes the VT switch, the client of the requested session is eventually enabled, and no client can starve others of service by its own traffic.',
     ['schedules', 'histories'], 'every fair schedule',
     'Liveness cannot be settled by finite tests.', [SEAT, POL], [('handover', 'seatd/seat.c seat_activate')], (), ['enable events'])

prop('C33', 'Signal handlers touch list structure safely',
     'A signal arriving at any instruction, including in the middle of a registration or removal of a signal source, never makes the handler follow a broken list.',
     ['schedules'], 'every instruction at which a signal can arrive',
     'Tests cannot enumerate asynchronous delivery instants.', [POL], [('handler walks the list', 'seatd/poller.c signal_handler')], (), ['process liveness'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
