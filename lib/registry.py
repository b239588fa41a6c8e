"""All checks: property id -> proof units."""
from driver import Check, Unit, VERIF
CHECKS = {}
def add(prop, units, **kw):
    CHECKS[prop] = Check(prop, units, **kw)

def L(src, func, loop, text, mods=None, count=None):
    return dict(src=src, func=func, loop=loop, text=text, mods=mods, count=count)

# ---------------------------------------------------------------- C01 queue
H = ['hist']
add('C01', [
    Unit('alloc', 'u_queue.c', 'h_alloc', ['queue_alloc'], search=H, native=False, backends=['cadical', 'sat']),
    Unit('enqueue', 'u_queue.c', 'h_enqueue', ['queue_enqueue'], search=H, native=False, backends=['cadical', 'sat']),
    Unit('dequeue_head', 'u_queue.c', 'h_dequeue_head', ['queue_dequeue_head'], search=H, native=False, backends=['cadical', 'sat']),
    Unit('dequeue_tail', 'u_queue.c', 'h_dequeue_tail', ['queue_dequeue_tail'], search=H, native=False, backends=['cadical', 'sat']),
    Unit('drop', 'u_queue.c', 'h_drop', ['queue_drop'], search=H, native=False, backends=['cadical', 'sat']),
    Unit('look', 'u_queue.c', 'h_look', ['queue_head', 'queue_tail', 'queue_size', 'queue_capacity', 'queue_node_key', 'queue_node_data'], search=H, native=False, backends=['cadical', 'sat']),
    Unit('hist', 'u_queue.c', 'h_history', [], kind='bounded', defs=['CAPMAX=3', 'OPS=6'], unwind=7, bound='capacity <= 3, 6 operations'),
], assumptions=['queue capacity <= 2^30 (int index arithmetic)', 'malloc succeeds (queue_alloc does not handle failure)'])

# ------------------------------------------------------- C02 priority queue
H = ['fuzz']
PQL = [L('priority_queue.c', 'up', 0, 'vp_up(queue, curr_node, &parent_node)', ['parent_node'], 1),
       L('priority_queue.c', 'down', 0, 'vp_down(queue, curr_node, &child_node)', ['child_node'], 1)]
PQC = [('up', 'up_contract'), ('down', 'down_contract')]
Z3 = ['z3']
add('C02', [
    Unit('up_strict', 'u_pqueue.c', 'h_up', ['up', 'swap_node', 'get_parent_node'], kind='cut', loops=PQL, backends=Z3, search=H, unwind=3, split=True, defs=['STRICT=true']),
    Unit('up_weak', 'u_pqueue.c', 'h_up', ['up', 'swap_node', 'get_parent_node'], kind='cut', loops=PQL, backends=Z3, search=H, unwind=3, split=True, defs=['STRICT=false']),
    Unit('down', 'u_pqueue.c', 'h_down', ['down', 'swap_node', 'get_child_node'], kind='cut', loops=PQL, backends=Z3, search=H, unwind=3, split=True),
    Unit('behind', 'u_pqueue.c', 'h_behind', ['up', 'down'], native=False, backends=Z3, search=H, unwind=1, split=True),
    Unit('insert', 'u_pqueue.c', 'h_insert', ['pqueue_insert'], replace=PQC, native=False, backends=Z3, search=H, unwind=1, split=True),
    Unit('remove_last', 'u_pqueue.c', 'h_remove', ['pqueue_remove', 'get_node_id'], replace=PQC, native=False, backends=Z3, search=H, unwind=1, split=True, defs=['LAST=1']),
    Unit('remove_mid', 'u_pqueue.c', 'h_remove', ['pqueue_remove', 'get_node_id'], replace=PQC, native=False, backends=Z3, search=H, unwind=1, split=True, defs=['LAST=0']),
    Unit('pop_last', 'u_pqueue.c', 'h_pop', ['pqueue_pop', 'get_node_id'], replace=PQC, native=False, backends=Z3, search=H, unwind=1, split=True, defs=['LAST=1']),
    Unit('pop_mid', 'u_pqueue.c', 'h_pop', ['pqueue_pop', 'get_node_id'], replace=PQC, native=False, backends=Z3, search=H, unwind=1, split=True, defs=['LAST=0']),
    Unit('top', 'u_pqueue.c', 'h_top', ['pqueue_top', 'pqueue_size', 'pqueue_capacity', 'pqueue_node_key', 'pqueue_node_data'], backends=Z3, search=H, native=False, split=True),
    Unit('alloc', 'u_pqueue.c', 'h_alloc', ['pqueue_alloc'], kind='cut', backends=['z3', 'cvc5'], search=H, unwind=3,
         loops=[L('priority_queue.c', 'pqueue_alloc', 0, 'vp_alloc(res, &i)', ['i'], 1)], cc=['-include', 'vp_pq_decl.h']),
    Unit('fuzz', 'u_pqueue.c', 'h_history', [], kind='fuzz', defs=['CAPMAX=16', 'OPS=80'], bound='random histories of 80 operations, capacity 16'),
], assumptions=['capacity <= 2^28', 'pqueue_insert is called only on a non-full queue, pqueue_remove only with a live handle, pqueue_pop only on a non-empty queue (documented use)',
                'malloc succeeds (pqueue_alloc does not handle failure)'])

# --------------------------------------------------------------- C03 times
SAT2 = ['sat', 'cadical']
add('C03', [Unit(n, 'u_time.c', 'h_' + n, f, backends=['cadical', 'z3'], unwind=3, search=[n + '_fuzz']) for n, f in
            [('add', ['ts_add']), ('sub', ['ts_sub']), ('sub_us', ['ts_sub_us', 'ts_sub']), ('leq', ['ts_leq', 'ts_sub']), ('us_its', ['us_to_its', 'its_to_us'])]] +
    [Unit(n + '_fuzz', 'u_time.c', 'h_' + n, [], kind='fuzz', bound='random inputs') for n in ('add', 'sub', 'sub_us', 'leq', 'us_its')],
    assumptions=['second counts within +-2^40'])

# ------------------------------------------------------------- C04 requests
add('C04', [Unit(n, 'u_request.c', 'h_' + n, f, backends=['z3', 'cadical'], search=[n + '_fuzz'], cc=['-include', 'vp_req_decl.h'])
            for n, f in [('alloc', ['req_alloc', 'req_get_by_id']), ('lookup', ['req_get_by_id']), ('free', ['req_free', 'req_get_by_id'])]] +
    [Unit('init', 'u_request.c', 'h_init', ['req_init'], kind='cut', backends=['z3', 'cadical'], unwind=3, search=['init_fuzz'], cc=['-include', 'vp_req_decl.h'],
          loops=[L('request.c', 'req_init', 0, 'vp_init_loop(&i)', ['i', 'reqs'], 1)])] +
    [Unit(n + '_fuzz', 'u_request.c', 'h_' + n, [], kind='fuzz', bound='random table states', fuzz_s=5) for n in ('alloc', 'lookup', 'free', 'init')],
    assumptions=['fewer than 2^31 requests are started during one run (identifier counter does not wrap)', 'requests are started and retired by one thread at a time per slot'])

# ------------------------------------------- C05, C06, C07, C24 connections
CB = ['z3', 'cadical']
CL = dict()
# atomic_op(&object, …) -> atomic_op_lv(object, …): the same object without its
# address, for which the verifier has no efficient encoding
ATOMIC_LV = ('connection.c', r'\b(atomic_\w+)\(&([\w.\[\]>-]+)', r'\1_lv(\2')
def fz(name, file, entry, bound, **kw):
    return Unit(name, file, entry, [], kind='fuzz', bound=bound, fuzz_s=kw.pop('fuzz_s', 5), **kw)
def simple(name, file, entry, funcs, **kw):
    """a complete (loop-free) unit and the random search for its concrete inputs"""
    return [Unit(name, file, entry, funcs, search=[name + '_fuzz'], backends=kw.pop('backends', CB), **kw),
            fz(name + '_fuzz', file, entry, 'random inputs', cc=kw.get('cc', ()))]
add('C05', [
    Unit('alloc', 'u_conn.c', 'h_alloc', ['conn_alloc'], kind='cut', subst=[ATOMIC_LV], split=True, backends=CB, unwind=3, search=['alloc_fuzz'],
         loops=[L('connection.c', 'conn_alloc', 0, 'vp_alloc_loop(&conn_id)', ['conn_id', 'conns'], 1)], **CL),
    fz('alloc_fuzz', 'u_conn.c', 'h_alloc', 'random tables and interference'),
    Unit('reset', 'u_conn.c', 'h_reset', ['conn_reset', 'req_free'], kind='cut', split=True, backends=CB, unwind=3, search=['reset_fuzz'],
         loops=[L('connection.c', 'conn_reset', 0, 'vp_reset_loop(conn, &temp)', ['temp'], 1)]),
    fz('reset_fuzz', 'u_conn.c', 'h_reset', 'up to 5 pending requests'),
] + [u for n in ('free', 'del_id') for u in (
    Unit(n, 'u_conn.c', 'h_' + n, ['conn_' + n], kind='cut', subst=[ATOMIC_LV], backends=CB, search=[n + '_fuzz'], replace=[('conn_reset', 'reset_contract')]),
    fz(n + '_fuzz', 'u_conn.c', 'h_' + n, 'up to 5 pending requests'))] + [
    Unit('del_sock', 'u_conn.c', 'h_del_sock', ['conn_del_sock'], backends=CB, native=False, replace=[('conn_find_sock', 'find_sock_contract'), ('conn_del_id', 'del_id_contract')], **CL),
    Unit('init', 'u_conn.c', 'h_init', ['conn_init'], kind='cut', backends=CB, unwind=3, search=['init_fuzz'],
         loops=[L('connection.c', 'conn_init', 0, 'vp_cinit_loop(&i)', ['i', 'conns'], 1)], **CL),
    fz('init_fuzz', 'u_conn.c', 'h_init', 'random tables'),
], assumptions=['the flag operations are atomic and sequentially consistent; other threads change a slot only while they own it',
                'list functions only follow next/prev links (pending requests are modelled as consecutive nodes of an arbitrary-length list)',
                'a released connection\'s pending requests are touched by no other thread'])
add('C06', simple('send', 'u_conn.c', 'h_send', ['conn_send'], **CL) + simple('start_send', 'u_conn.c', 'h_start_send', ['conn_start_send', 'conn_send'], **CL) +
    simple('compose', 'u_conn.c', 'h_compose', ['conn_send_message'], **CL) + simple('space', 'u_conn.c', 'h_get_send_buf', ['get_send_buf'], **CL),
    assumptions=['sendto accepts any number of bytes up to the length given, or fails with any errno'])
add('C07', simple('recv', 'u_conn.c', 'h_recv', ['conn_recv'], **CL) + simple('next', 'u_conn.c', 'h_next', ['conn_next_message'], **CL) +
    simple('drop', 'u_conn.c', 'h_remove_msg', ['conn_remove_message'], replace=[('memmove', 'move_contract')], **CL),
    assumptions=['declared message sizes lie between the header size and the buffer size (others stop the node by an assertion)', 'data is asked for only while there is free space in the receive buffer'])
FL = dict(backends=CB, unwind=3, kind='cut')
add('C24', [
    Unit('find_existing', 'u_conn.c', 'h_find_existing', ['conn_find_existing'], search=['fe_fuzz'], loops=[L('connection.c', 'conn_find_existing', 0, 'vp_find_loop(&i, &rv, 0)', ['i', 'rv'], 1)], **FL),
    Unit('find_sock', 'u_conn.c', 'h_find_sock', ['conn_find_sock'], search=['fs_fuzz'], loops=[L('connection.c', 'conn_find_sock', 0, 'vp_find_loop(&i, &rv, 1)', ['i', 'rv'], 1)], **FL),
    fz('fe_fuzz', 'u_conn.c', 'h_find_existing', 'random tables'), fz('fs_fuzz', 'u_conn.c', 'h_find_sock', 'random tables'),
], assumptions=['the table is not changed by other threads during a lookup'])

# ------------------------------------------------- C16, C17, C19 storage side
N = 'dw_node.c'
ST = 'u_store.c'
add('C17', [
    Unit('safe_write', ST, 'h_safe_write', ['safe_write'], kind='cut', backends=CB, unwind=3, search=['sw_fuzz'],
         loops=[L(N, 'safe_write', 0, 'vp_sw_loop(&buf, &len)', ['buf', 'len'], 1)]),
    Unit('safe_read', ST, 'h_safe_read', ['safe_read'], kind='cut', backends=CB, unwind=3, search=['sr_fuzz'],
         loops=[L(N, 'safe_read', 0, 'vp_sr_loop(&buf, &len, &len_on_last_seek)', ['buf', 'len', 'len_on_last_seek'], 1)]),
    fz('sw_fuzz', ST, 'h_safe_write', 'random partial writes, up to 40 bytes'), fz('sr_fuzz', ST, 'h_safe_read', 'random partial reads, up to 40 bytes'),
], assumptions=['read and write transfer any number of bytes from none to what was asked, or fail (read and write do not transfer more)',
                'termination is not part of the property: a descriptor may accept nothing forever', 'buffers below 2^48 bytes'])
add('C19', [
    Unit('compute_for', ST, 'h_compute', ['compute_for', 'ts_sub_us', 'ts_sub'], kind='cut', split=True, backends=CB, unwind=3, search=['compute_fuzz'],
         loops=[L(N, 'compute_for', 0, 'vp_cf_loop(&ts_end)', ['ts_end'], 1)]),
    fz('compute_fuzz', ST, 'h_compute', 'random clock readings'),
], assumptions=['the CPU clock never goes back, readings are normalised and below 2^31 seconds', 'requested times are 32-bit, as in the command'])
SRC_ = [('safe_write', 'safe_write_contract'), ('safe_read', 'safe_read_contract')]
add('C16', [
    Unit('store_b%d' % b, ST, 'h_store', ['store'], kind='cut', backends=CB, unwind=3, search=['store_fuzz'], replace=SRC_, defs=['BLK=%dUL' % (1 << b)],
         loops=[L(N, 'store', 0, 'vp_st_loop(&bytes, &stored_bytes)', ['bytes', 'stored_bytes'], 1)]) for b in range(9, 17)] + [
    Unit('load', ST, 'h_load', ['load'], kind='cut', backends=CB, unwind=3, search=['load_fuzz'], replace=SRC_,
         loops=[L(N, 'load', 0, 'vp_st_loop(&bytes, &read_bytes)', ['bytes', 'read_bytes'], 1)]),
    fz('store_fuzz', ST, 'h_store', 'random stores', native_defs=['VP_REPLACE']), fz('load_fuzz', ST, 'h_load', 'random loads', native_defs=['VP_REPLACE']),
], assumptions=['the file position is only changed by the storage functions', 'safe_write/safe_read meet their contract (C17)',
                'sizes and positions below 2^62; the block size is a power of two from 512 to 65536', 'a load finds data: reading beyond the end of the file continues at its start (C17)'])

SWR = [('pqueue_alloc', 'alloc_contract'), ('pqueue_size', 'size_contract'), ('pqueue_top', 'top_contract'), ('pqueue_pop', 'pop_contract'),
       ('pqueue_insert', 'insert_contract'), ('store', 'store_contract'), ('load', 'load_contract'), ('safe_write', 'safe_write_contract')]
add('C18', [
    Unit('storage_worker', 'u_storw.c', 'h_storage_worker', ['storage_worker'], kind='cut', backends=CB, unwind=3, replace=SWR, search=['worker_fuzz'],
         loops=[L(N, 'storage_worker', 0, 'vp_reg_loop(&i)', ['i', 'ev'], 4),
                L(N, 'storage_worker', 1, 'vp_run_loop(&running, events)', ['running', 'events', 'fd', 'type'], 4),
                L(N, 'storage_worker', 2, 'vp_ev_loop(&i, nfds, &running, events)', ['i', 'running', 'fd', 'type'], 4),
                L(N, 'storage_worker', 3, 'vp_drain_loop()', ['req_id'], 4)]),
    fz('worker_fuzz', 'u_storw.c', 'h_storage_worker', 'up to 40 events'),
], assumptions=['the sync queue meets its contract (C02) and is never full (one entry per live request)', 'store synchronises as proved for C16',
                'a request is read from its channel whole', 'no two live requests of a worker have the same id (C04)'])

# --------------------------------------------------- C10, C11 command lists
MS = 'message.c'
SKL = [L(MS, 'message_skip_cmds', 0, 'vp_skip_loop(&itr, &skipped)', ['itr', 'skipped'], 3), L(MS, 'message_skip_cmds', 1, 'vp_step_loop(&itr, &nested_fwd)', ['itr', 'nested_fwd'], 3),
       L(MS, 'message_skip_cmds', 2, 'vp_run_loop(&itr)', ['itr'], 3)]
add('C10', [
    Unit('skip', 'u_msg.c', 'h_skip', ['message_skip_cmds', 'cmd_next', 'cmd_type_size'], kind='cut', split=True, backends=CB, unwind=3, search=['skip_fuzz'], loops=SKL),
    fz('skip_fuzz', 'u_msg.c', 'h_skip', 'up to 23 commands'),
    Unit('cskip', 'u_ccmd.c', 'h_cskip', ['ccmd_skip'], kind='cut', split=True, backends=CB, unwind=4, search=['cskip_fuzz'],
         loops=[L('ccmd.c', 'ccmd_skip', 0, 'vp_cskip_loop(&itr, &skipped)', ['itr', 'skipped'], 3), L('ccmd.c', 'ccmd_skip', 1, 'vp_cstep_loop(&itr, &nested_fwd)', ['itr', 'nested_fwd'], 3),
                L('ccmd.c', 'ccmd_skip', 2, 'vp_crun_loop(&itr)', ['itr'], 3)]),
    fz('cskip_fuzz', 'u_ccmd.c', 'h_cskip', 'up to 19 commands'),
] + simple('next', 'u_msg.c', 'h_next', ['cmd_next', 'cmd_type_size', 'message_first_cmd']),
    assumptions=['the list lies within the message and ends with an end marker'])
add('C11', [
    Unit('copy_tail', 'u_msg.c', 'h_copy_tail', ['message_copy_tail'], kind='cut', split=True, backends=CB, unwind=3, search=['copy_fuzz'], replace=[('message_skip_cmds', 'skip_contract')],
         loops=[L(MS, 'message_copy_tail', 0, 'vp_copy_loop(&itr)', ['itr'], 1)]),
    fz('copy_fuzz', 'u_msg.c', 'h_copy_tail', 'up to 23 commands'),
], assumptions=['a reply at the level of the first command exists', 'the declared size of the source covers its commands', 'skipping one step meets its contract (C10)'])
add('C09', [
    Unit('dump', 'u_ccmd.c', 'h_dump', ['ccmd_dump'], kind='cut', split=True, backends=CB, unwind=40, search=['dump_fuzz'], replace=[('ccmd_skip', 'cskip_contract')],
         loops=[L('ccmd.c', 'ccmd_dump', 0, 'vp_dump_loop(m, &ccmd_itr, &m_cmd_itr)', ['ccmd_itr', 'm_cmd_itr', 'rnd_buf', 'x'], 1)]),
    fz('dump_fuzz', 'u_ccmd.c', 'h_dump', 'up to 19 commands'),
], assumptions=['sampled values lie within -1..2^32-1 (sampling itself: C20)', 'skipping in the configured list meets its contract (C10)', 'no other thread changes the configured list'])

# --------------------------------------------------- C08 pending requests
PE = 'u_pend.c'
add('C08', [
    Unit('req_remove', PE, 'h_req_remove', ['conn_req_remove', 'req_free'], kind='cut', split=True, backends=CB, unwind=3, search=['remove_fuzz'],
         loops=[L('connection.c', 'conn_req_remove', 0, 'vp_rm_loop(&temp)', ['temp'], 1)]),
    fz('remove_fuzz', PE, 'h_req_remove', 'up to 6 pending requests'),
    Unit('req_add', PE, 'h_req_add', ['conn_req_add'], backends=CB, search=['add_fuzz'], replace=[('req_alloc', 'alloc_contract'), ('conn_get_id_by_ptr', 'id_contract')]),
    fz('add_fuzz', PE, 'h_req_add', 'up to 5 requests'),
] + simple('conn_id', PE, 'h_conn_id', ['conn_get_by_id', 'conn_get_id_by_ptr']),
    assumptions=['messages of pending requests lie in the receive buffer in the order of their arrival and do not overlap (kept by C07 and this property)',
                 'a retired request\'s message still declares the size it was received with', 'the connection is handled by one thread'])

# ---------------------------------------------- C13, C14 forward timeouts
TM = 'u_tmo.c'
TMR = [('pqueue_size', 'size_contract'), ('pqueue_top', 'top_contract'), ('pqueue_remove', 'remove_contract'), ('pqueue_insert', 'insert_contract'),
       ('req_get_by_id', 'get_contract'), ('its_to_us', 'to_us_contract'), ('us_to_its', 'to_its_contract')]
add('C13', [
    Unit('arm', TM, 'h_insert', ['insert_timeout', 'remove_timeout', 'remove_timeout_node'], backends=CB, replace=TMR, search=['timeout_fuzz']),
    Unit('cancel', TM, 'h_remove', ['remove_timeout', 'remove_timeout_node'], backends=CB, replace=TMR, search=['timeout_fuzz']),
    fz('timeout_fuzz', TM, 'h_insert', 'random histories of up to 45 operations on 12 requests'),
], assumptions=['the queue of pending timeouts meets its contract (C02) and is not full', 'time is counted in whole microseconds and does not pass while a timeout is armed or cancelled',
                'an expired timer is handled at once (handling it late postpones the timeouts pending then by the same time)',
                'timeouts are below 2^29 us and less than 2^30 us pass without the set of pending timeouts becoming empty'])
add('C14', [
    Unit('expiry', TM, 'h_handle', ['handle_timeout', 'remove_timeout', 'remove_timeout_node'], backends=CB, search=['world_fuzz'],
         replace=TMR + [('process_messages', 'process_contract'), ('message_skip_cmds', 'skip_contract'), ('conn_req_remove', 'drop_contract')]),
    fz('world_fuzz', 'u_world.c', 'h_world', 'histories of up to 3 clients with 4 requests each, 4 targets'),
], assumptions=['the queue of pending timeouts meets its contract (C02), looking up a request its own (C04), skipping steps its own (C10), retiring a request its own (C08)',
                'arming and cancelling a timeout keeps the deadlines of the others (C13)', 'an expired timer is handled at once (handling it late postpones the timeouts pending then by the same time)',
                'a waiting request is handled by one worker only'])

# ------------------------------------------------- C15 executing requests
EX = 'u_exec.c'
add('C15', [
    Unit('reply', EX, 'h_reply', ['reply', 'watch_output'], backends=CB, search=['world_fuzz'],
         replace=[('conn_send_message', 'compose_contract'), ('conn_req_remove', 'retire_contract'), ('conn_start_send', 'send_contract')]),
    Unit('commands', EX, 'h_commands', ['process_single_message'], kind='cut', backends=CB, unwind=3, search=['world_fuzz'],
         loops=[L(N, 'process_single_message', 0, 'vp_cmd_loop(&cmd)', ['cmd'], 1)],
         replace=[('compute_for', 'compute_contract'), ('start_forward', 'forward_contract'), ('reply', 'reply_contract'), ('cmd_next', 'next_contract')]),
    Unit('go_on', EX, 'h_process', ['process_messages'], backends=CB, search=['world_fuzz'], replace=[('process_single_message', 'single_contract'), ('obtain_messages', 'obtain_contract')]),
    Unit('obtain', EX, 'h_obtain', ['obtain_messages', 'message_first_cmd'], kind='cut', backends=CB, unwind=3, search=['world_fuzz'],
         loops=[L(N, 'obtain_messages', 0, 'vp_msg_loop(&m)', ['m'], 1)],
         replace=[('conn_next_message', 'next_msg_contract'), ('handle_forward_reply', 'resp_contract'), ('conn_req_add', 'add_contract'), ('process_single_message', 'single2_contract'), ('conn_remove_message', 'drop_contract')]),
    fz('world_fuzz', 'u_world.c', 'h_world', 'histories of up to 3 clients with 4 requests each, 4 targets'),
], assumptions=['composing and sending a message meets its contract (C06), the next message its own (C07), adding and retiring requests their own (C08), computing its own (C19)',
                'requests declare a size that covers their commands and end marker; replies fit in the send buffer or the request stays unanswered and is kept',
                'the pipe to the storage worker accepts a request record in one write', 'memory for the copy of a storage command can be allocated'])

# -------------------------------------------------------- C12 forwarding
FW = 'u_fwd.c'
add('C12', [
    Unit('forward', FW, 'h_forward', ['single_start_forward', 'setnonblocking', 'watch_output', 'conn_set_status_by_id'], kind='cut', backends=CB, unwind=3, search=['world_fuzz'],
         loops=[L(N, 'single_start_forward', 0, 'vp_group_loop(&c)', ['c'], 1)],
         replace=[('conn_find_existing', 'find_contract'), ('conn_alloc', 'alloc_contract'), ('conn_send_message', 'compose_contract'), ('cmd_next', 'next_contract'),
                  ('message_copy_tail', 'copy_contract'), ('conn_start_send', 'start_contract'), ('insert_timeout', 'timeout_contract')]),
    Unit('group', FW, 'h_group', ['start_forward'], kind='cut', backends=CB, unwind=3, search=['world_fuzz'],
         loops=[L(N, 'start_forward', 0, 'vp_fwd_loop(&cmd)', ['cmd'], 1)], replace=[('single_start_forward', 'single_contract'), ('cmd_next', 'next2_contract')]),
    Unit('response', FW, 'h_response', ['handle_forward_reply'], backends=CB, search=['world_fuzz'],
         replace=[('req_get_by_id', 'get_contract'), ('message_skip_cmds', 'skip_contract'), ('remove_timeout', 'cancel_contract'), ('process_messages', 'process_contract')]),
    fz('world_fuzz', 'u_world.c', 'h_world', 'histories of up to 3 clients with 4 requests each, 4 targets'),
], assumptions=['composing, sending and copying commands meet their contracts (C06, C11), connections are found and allocated as proved for C24 and C05, timeouts armed and cancelled as proved for C13',
                'the message size configured for a forward covers the commands it carries', 'the connection used by a forward is used by one worker at a time',
                'a datagram is sent whole or not at all'])

# --------------------------------------------------- C25 connection events
EVN = 'u_event.c'
add('C25', [
    Unit('event', EVN, 'h_event', ['exec_request', 'establish_conn', 'close_and_forget', 'watch_output'], backends=CB, search=['world_fuzz'],
         replace=[('conn_recv', 'recv_contract'), ('conn_send', 'send_contract'), ('obtain_messages', 'obtain_contract'), ('handle_timeout', 'timer_contract'),
                  ('conn_del_sock', 'forget_contract'), ('conn_free', 'free_contract')]),
    Unit('worker', EVN, 'h_worker', ['conn_worker', 'setnonblocking', 'i2l', 'l2i'], kind='bounded', standin=True, bound='a table of 4 workers instead of 256', backends=CB, unwind=6, subst=[(N, '#define MAX_THREADS 256', '#define MAX_THREADS 4')], search=['world_fuzz'],
         loops=[L(N, 'conn_worker', 0, 'vp_run_loop(&running)', ['running', 'ev', 'type', 'fd', 'events', 'next_thread_cnt', 'i', 'nfds', 'total_active_conns', 'total_active_reqs'], 3),
                L(N, 'conn_worker', 1, 'vp_ev_loop(&i, nfds, &running, events)', ['i', 'running', 'ev', 'type', 'fd', 'events', 'next_thread_cnt', 'total_active_conns', 'total_active_reqs'], 3),
                L(N, 'conn_worker', 2, 'vp_stat_loop(&i)', ['i', 'total_active_conns', 'total_active_reqs'], 3)],
         replace=[('conn_find_sock', 'find_sock_contract'), ('conn_alloc', 'calloc_contract'), ('close_and_forget', 'drop_contract'), ('safe_read', 'sread_contract'),
                  ('req_get_by_id', 'get_contract'), ('process_messages', 'go_contract'), ('exec_request', 'exec_contract'), ('conn_set_status_by_id', 'status_contract')]),
    fz('world_fuzz', 'u_world.c', 'h_world', 'histories of up to 3 clients with 4 requests each, 4 targets'),
], assumptions=['receiving and sending meet their contracts (C06, C07), messages are handled as proved for C15, timer events as proved for C13 and C14',
                'a worker gets the events of its own connections only', 'accepted sockets and connections are counted by the worker they are given to'])

# ------------------------------------------------------------ C22 CPU lists
AF = 'u_aff.c'
AFS = 'thread_affinity.c'
add('C22', [
    Unit('list', AF, 'h_list', ['aff_list_parse'], kind='cut', backends=['cadical', 'z3'], unwind=10, search=['list_fuzz'],
         loops=[L(AFS, 'aff_list_parse', 0, 'vp_list_loop(&str, &tok, &min, &val, &max, mask)', ['str', 'tok', 'min', 'val', 'max'], 2),
                L(AFS, 'aff_list_parse', 1, 'vp_range_loop(&i, min, max, step, mask)', ['i'], 2)]),
    Unit('next', AF, 'h_next', ['aff_it_next'], kind='cut', backends=['cadical', 'z3'], unwind=3, search=['next_fuzz'],
         loops=[L(AFS, 'aff_it_next', 0, 'vp_it_loop(it)', [], 1)]),
    Unit('first', AF, 'h_first', ['aff_it_init'], backends=['cadical', 'z3'], search=['first_fuzz'], replace=[('aff_it_next', 'next_contract')]),
    fz('list_fuzz', AF, 'h_list', 'lists of up to 6 entries'), fz('next_fuzz', AF, 'h_next', 'random sets'), fz('first_fuzz', AF, 'h_first', 'random sets'),
], assumptions=['at most 1024 cores (the size of the system\'s core sets)', 'strsep and sscanf as specified by the C library', 'steps below 2^31-1024', 'cores are handed out of a non-empty selection'])

# ------------------------------------------------------------- C23 addresses
AD = dict(unwind=34, cc=['-I' + VERIF + '/include/exitassert'], backends=['cadical', 'z3'])
add('C23', simple('proto', 'u_addr.c', 'h_proto', ['addr_proto_parse'], **AD) + simple('hostport', 'u_addr.c', 'h_hostport', ['addr_parse'], **AD),
    assumptions=['string functions as specified by the C library; the resolver yields IPv4 addresses', 'port numbers up to 65535 (larger ones are cut to 16 bits)',
                 'strings with further slashes, or with a word other than tcp and udp in front of ://, are not addresses: only their safe handling is decided'])

# ----------------------------------------- C20, C21 quantities, distributions
DI = 'u_dist.c'
DS = 'distrib.c'
KINDS = ['FIXED', 'UNIF', 'EXPON', 'NORM', 'LOGNORM', 'GAMMA', 'ARITH_SEQ', 'GEO_SEQ', 'SFILE']
FP = ['z3fpa', 'cadical']
add('C21', [
    Unit('unit', DI, 'h_unit', ['sscanf_unit', 'sscanf_time_us'], backends=FP, search=['unit_fuzz'], native=False),
] + [
    Unit('values_' + k.lower(), DI, 'h_parse', ['pd_parse_internal'], kind='cut', split=k in ('LOGNORM', 'GAMMA', 'SFILE'), backends=FP, unwind=14, defs=['KIND=' + k], search=['values_fuzz'], replace=[('sscanf_unit', 'unit_contract'), ('pd_load_file', 'load_contract')],
         loops=[L(DS, 'pd_parse_internal', 0, 'vp_tok_loop(&s, &tok, p, &col, &fname, &sep, &xavg, &xstd, &k, &scale, &file_unit_us)', ['s', 'tok', 'col', 'fname', 'sep', 'xavg', 'xstd', 'k', 'scale', 'file_unit_us'], 2),
                L(DS, 'pd_parse_internal', 1, 'vp_scale_loop(&i, p, file_unit_us)', ['i'], 2)]) for k in KINDS] + [
    Unit('ways', DI, 'h_ways', ['pd_parse', 'pd_parse_time', 'pd_parse_bytes'], backends=FP, search=['values_fuzz'], native=False, replace=[('pd_parse_internal', 'internal_contract')]),
    fz('unit_fuzz', DI, 'h_unit', 'random numbers and suffixes'), fz('values_fuzz', DI, 'h_parse', 'up to 6 parameters'),
], assumptions=['sscanf, strsep, strcmp and the like as specified by the C library; sscanf yields no NaN', 'exp and sqrt are functions', 'text of up to 2^20 characters'])
add('C20', [
    Unit('sample_' + k.lower(), DI, 'h_sample', ['pd_sample'], kind='cut', backends=FP, unwind=2, search=['sample_fuzz'], subst=[(DS, r'\bretry:', 'retry: vp_retry(p);')], defs=['KIND=' + k],
         replace=[('expon', 'expon_contract'), ('gaussian', 'gauss_contract'), ('distr_gamma', 'gamma_contract')]) for k in KINDS] + [
    Unit('file', DI, 'h_file', ['pd_load_file'], kind='cut', backends=FP, unwind=14, search=['values_fuzz'],
         loops=[L(DS, 'pd_load_file', 0, 'vp_line_loop(&n, &n_max, p)', ['n', 'n_max', 'val', 's', 'c', 'colstr'], 2), L(DS, 'pd_load_file', 1, 'vp_col_loop(&c, &colstr)', ['c', 'colstr', 's'], 2)]),
    fz('sample_fuzz', DI, 'h_sample', 'random parameters'), fz('values_fuzz', DI, 'h_parse', 'up to 6 parameters, files of up to 20 lines'),
    Unit('unif_fuzz', DI, 'h_sample', ['pd_sample'], kind='fuzz', bound='random parameters', fuzz_s=3, defs=['KIND=UNIF']),
], assumptions=['random draws lie in [0,1)', 'uniform: IEEE addition and multiplication are monotone (trusted lemma) and minimum + (maximum - minimum) is the maximum without rounding; without that only random runs', 'ranges are finite and not empty; at least one value of a file lies within the range', 'parameters as accepted by the parser (C21)'])

# ---------------------------------------------------------- C26 client sender
CLI = 'u_client.c'; DC = 'dw_client.c'
SM = ['i', 'm', 'send_period_us_pd', 'send_pkt_size_pd', 'send_rate_pd', 'ts_now']
add('C26', [
    Unit('sender', CLI, 'h_sender', ['thread_sender'], kind='cut', backends=CB, unwind=3, search=['sender_fuzz'],
         replace=[('idx', 'idx_contract'), ('ts_sub_us', 'sub_us_contract'), ('ts_add', 'add_contract'), ('ts_leq', 'leq_contract')],
         loops=[L(DC, 'thread_sender', 0, 'vp_s_loop(&i, &ts_now)', SM, 4), L(DC, 'thread_sender', 1, 'vp_g_loop(&sent)', ['sent'], 4),
                L(DC, 'thread_sender', 2, 'vp_r_loop(&step_prev)', ['step_prev', 'old_rate', 'rate', 'val', 'send_rate_pd', 'send_period_us_pd'], 4), L(DC, 'thread_sender', 3, 'vp_p_loop()', ['ts'], 4)]),
    Unit('idx', CLI, 'h_idx', ['idx'], kind='full', backends=CB, unwind=2, search=['idx_fuzz']),
    fz('sender_fuzz', CLI, 'h_sender', 'sessions of up to 19 requests'), fz('idx_fuzz', CLI, 'h_idx', 'random inputs'),
], assumptions=['composing and sending a message meets its contract (C06), encoding its own (C09), time arithmetic its own (C03)', 'the connection and the record tables stay allocated while the sender runs',
                'no other thread changes the recorded send times; sampled sizes lie in [0, 2^31]', 'at most 10^6 requests, as checked when options are read'])
