"""Which functions are verified in which group, and which groups decide which property."""
import vcg.cast as cast
from .common import ListSpecs
from .daemon import DaemonSpecs
from .terminal import TermSpecs
from .log import LogSpecs
from .poller import PollerSpecs
from .libseat import LibseatSpecs
from .selection import SelectSpecs

LIST = ('common/linked_list.c', ['linked_list_init', 'linked_list_insert', 'linked_list_remove', 'linked_list_empty', 'linked_list_take'])

H = ['seatd/client.c:handle_' + x for x in ('open_seat', 'close_seat', 'open_device', 'close_device', 'disable_seat', 'switch_session', 'ping')] + ['seatd/client.c:client_handle_opcode']

def LS(names):
    return ['libseat/backend/seatd.c:' + n for n in names]


# group -> (program builder, specification class, {file: [functions]})
GROUPS = {
    'list': (cast.daemon_program, ListSpecs, dict([LIST])),
    'seat': (cast.daemon_program, DaemonSpecs, {
        'seatd/seat.c': ['seat_find_device', 'seat_close_device', 'seat_open_device', 'seat_open_client', 'seat_ack_disable_client',
                         'seat_remove_client', 'seat_set_next_session', 'seat_vt_activate', 'seat_vt_release', 'seat_add_client']}),
    'client': (cast.daemon_program, DaemonSpecs, {
        'seatd/client.c': ['client_send_enable_seat', 'client_send_disable_seat', 'client_create', 'client_destroy', 'client_handle_connection'] + H}),
    'server': (cast.daemon_program, DaemonSpecs, {
        'seatd/server.c': ['server_init', 'server_finish', 'server_get_seat', 'server_add_client', 'server_handle_connection'] + ['seatd/server.c:@signal%d' % k for k in (10, 12, 2, 15)],
        'seatd/seat.c': ['seat_create', 'seat_destroy']}),
    'terminal': (cast.daemon_program, TermSpecs, {
        'common/terminal.c': ['terminal_' + x for x in ('open', 'current_vt', 'set_process_switching', 'set_keyboard', 'set_graphics', 'switch_vt', 'ack_release', 'ack_acquire')],
        'common/drm.c': ['drm_set_master', 'drm_drop_master', 'path_is_drm'],
        'common/evdev.c': ['evdev_revoke', 'path_is_evdev'],
        'common/hidraw.c': ['hidraw_revoke', 'path_is_hidraw'],
        'common/wscons.c': ['path_is_wscons']}),
    'log': (cast.daemon_program, LogSpecs, {
        'common/log.c': ['_logf', 'log_init', 'libseat_set_log_handler', 'libseat_set_log_level', 'common/log.c:@initial', 'common/log.c:@default']}),
    'poller': (cast.daemon_program, PollerSpecs, {
        'seatd/poller.c': ['seatd/poller.c:regenerate', 'seatd/poller.c:dispatch', 'poller_poll', 'poller_init', 'poller_finish', 'poller_add_fd', 'event_source_fd_destroy', 'event_source_fd_update',
                           'poller_add_signal', 'event_source_signal_destroy', 'seatd/poller.c:signal_handler']}),
    'libseat': (cast.client_program, LibseatSpecs, {
        'libseat/backend/seatd.c': LS(['cleanup', 'read_and_queue', 'execute_events', 'read_until_response', 'read_header', 'check_pending_events', 'open_device', 'close_device', 'switch_session',
                                       'disable_seat', 'get_fd', 'seat_name', 'dispatch', 'close_seat', '_open_seat', 'open_seat', 'builtin_open_seat'])}),
    'selection': (cast.client_program, SelectSpecs, {
        'libseat/libseat.c': ['libseat_open_seat', 'libseat_disable_seat', 'libseat_close_seat', 'libseat_seat_name', 'libseat_open_device', 'libseat_close_device', 'libseat_get_fd', 'libseat_dispatch',
                              'libseat_switch_session', 'libseat/libseat.c:@table-']}),
}


def h(*names):
    return ['seatd/client.c:' + ('client_' if n == 'handle_opcode' else '') + ('handle_' if n != 'handle_opcode' else '') + n for n in names]


SENDS = ['client_send_enable_seat', 'client_send_disable_seat']
LIFE = ['client_create', 'client_destroy']
SEAT_MOVES = ['seat_open_client', 'seat_ack_disable_client', 'seat_remove_client', 'seat_set_next_session', 'seat_vt_activate', 'seat_vt_release', 'seat_add_client']

SIGNALS = ['seatd/server.c:@signal%d' % k for k in (10, 12, 2, 15)]

# property -> {group: None (all functions) or [functions]}
PROPERTIES = {
    'C30': {'list': None},
    'C01': {'seat': SEAT_MOVES, 'client': SENDS + LIFE + h('open_seat', 'disable_seat', 'close_seat', 'switch_session')},
    'C02': {'seat': None, 'client': SENDS + ['client_destroy'] + h('open_device', 'close_device', 'disable_seat', 'switch_session')},
    'C03': {'seat': ['seat_open_device', 'seat_close_device', 'seat_open_client', 'seat_add_client', 'seat_remove_client', 'seat_set_next_session'],
            'client': h('open_device', 'handle_opcode', 'close_device')},
    'C04': {'seat': ['seat_find_device', 'seat_open_device', 'seat_close_device', 'seat_remove_client', 'seat_ack_disable_client', 'seat_set_next_session'],
            'client': h('open_device', 'close_device', 'handle_opcode', 'disable_seat')},
    'C05': {'seat': None, 'client': LIFE + ['client_handle_connection'] + h('open_device', 'close_device', 'close_seat', 'open_seat'),
            'server': ['server_add_client', 'server_handle_connection', 'server_finish', 'seat_destroy']},
    'C06': {'seat': SEAT_MOVES, 'client': h('switch_session', 'disable_seat', 'handle_opcode')},
    'C07': {'seat': SEAT_MOVES, 'client': SENDS + LIFE + h('open_seat', 'close_seat', 'disable_seat', 'switch_session')},
    'C08': {'seat': SEAT_MOVES, 'client': ['client_destroy'] + h('open_seat', 'close_seat', 'disable_seat')},
    'C11': {'seat': SEAT_MOVES, 'client': LIFE + h('open_seat', 'close_seat')},
    'C12': {'client': ['client_handle_connection'] + h('handle_opcode', 'open_device', 'close_device', 'switch_session', 'ping')},
    'C13': {'seat': ['seat_find_device', 'seat_open_device', 'seat_close_device', 'seat_set_next_session', 'seat_ack_disable_client'], 'client': None},
    'C09': {'seat': ['seat_vt_activate', 'seat_vt_release'], 'server': SIGNALS + ['server_init', 'server_get_seat'],
            'terminal': ['terminal_open', 'terminal_current_vt', 'terminal_set_process_switching', 'terminal_ack_release', 'terminal_ack_acquire']},
    'C10': {'seat': SEAT_MOVES, 'client': ['client_send_enable_seat', 'client_destroy'] + h('close_seat', 'open_seat'),
            'terminal': ['terminal_open', 'terminal_set_process_switching', 'terminal_set_keyboard', 'terminal_set_graphics']},
    'C15': {'list': None, 'seat': None, 'client': None, 'server': None, 'terminal': None, 'log': None, 'poller': None},
    'C18': {'poller': None},
    'C19': {'poller': None},
    'C20': {'libseat': LS(['cleanup', 'read_and_queue', 'execute_events', 'read_until_response', 'read_header', 'check_pending_events', 'dispatch', 'close_seat', '_open_seat'])},
    'C21': {'libseat': None},
    'C22': {'libseat': LS(['read_and_queue', 'execute_events', 'read_until_response', 'read_header', 'check_pending_events', 'open_device', 'close_device', 'switch_session', 'disable_seat', 'close_seat', '_open_seat'])},
    'C23': {'libseat': LS(['read_until_response', 'read_header', 'seat_name', '_open_seat'])},
    'C24': {'libseat': LS(['cleanup', 'read_header', 'read_until_response', 'close_seat', '_open_seat', 'open_seat', 'builtin_open_seat']), 'selection': None},
    'C25': {'libseat': LS(['read_and_queue', 'execute_events', 'read_until_response', 'check_pending_events', 'get_fd', 'dispatch', 'open_device', 'close_device', 'switch_session', 'disable_seat'])},
    'C28': {'log': None},
    'C29': {'terminal': None},
    'C14': {'server': ['server_add_client', 'server_handle_connection', 'server_finish', 'seat_destroy'], 'seat': ['seat_remove_client', 'seat_open_client', 'seat_set_next_session', 'seat_ack_disable_client', 'seat_close_device'],
            'client': LIFE + ['client_handle_connection'] + h('close_seat', 'open_seat', 'handle_opcode')},
}

NOT_APPLICABLE = {
    'C32': 'liveness over fair schedules and client behaviour: a contract relates the states before and after one call and cannot express that something eventually happens',
    'C33': 'concerns an interrupt between two instructions of another function: function contracts see no intermediate states of a function from outside',
}
