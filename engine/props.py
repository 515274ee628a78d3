"""What each check verifies: the functions whose contracts state the property (their callees'
contracts are verified with them), and the replay harnesses that judge the property natively."""

T = 'trusts the VC generator, clang AST, z3'
RMCPUB = ['rmc_pub_packet.c', 'rmc_pub_timeout.c', 'rmc_pub_write.c', 'rmc_pub_read.c', 'rmc_pub_context.c', 'rmc_connection.c', 'rmc_protocol.c']
RMCSUB = ['rmc_sub_packet.c', 'rmc_sub_timeout.c', 'rmc_sub_write.c', 'rmc_sub_read.c', 'rmc_sub_context.c', 'rmc_connection.c', 'rmc_protocol.c']

SEND = r'^(send_single_multicast_packet|process_multicast_write)$'

PROPS = {
    'C01': {'roots': [r'^circ_buf_'], 'fz': ['circ'],
            'note': 'every circ_buf function verified against its contract over the byte string a buffer stores, for all sizes up to 2^31 and all layouts; trusts the VC generator, clang AST, z3, the memcpy contract'},
    'C02': {'roots': [r'^circ_buf_(alloc|available|in_use|init)$'], 'fz': ['circ'],
            'note': 'circ_buf_alloc verified for all buffer states and lengths; trusts the VC generator, clang AST, z3'},
    'C03': {'roots': [r'_list_', r'_rmc_(alloc|free)_node'], 'fz': ['list'],
            'note': 'all 31 operations of all six instances of the list template verified against ghost sequences, loops by inductive invariants; lists shorter than 2^32-2; trusts the VC generator, clang AST, z3, malloc/free contracts; comparison functions pure'},
    'C04': {'roots': [r'^pub_(queue_packet|queue_no_acknowledge_packet|packet_sent|init_context)$', r'^rmc_pub_queue_packet$', SEND], 'fz': ['pubsim', 'netpub'],
            'bounded': RMCPUB,
            'note': 'pub.c queueing and sending verified against ghost sets for all contexts; ' + T + '; the rmc_pub_* callers only by bounded native histories'},
    'C05': {'roots': [r'^pub_(packet_sent|packet_ack|packet_discard|reset_subscriber)$', SEND, r'^rmc_pub_(packet_ack|close_connection)$'], 'fz': ['pubsim', 'netpub'],
            'bounded': RMCPUB,
            'note': 'pub.c sending, acknowledging and discarding verified for all contexts (who is awaited, exactly-once freeing); ' + T + '; the rmc_pub_* callers only by bounded native histories'},
    'C06': {'roots': [r'^pub_(get_timed_out_subscribers|get_timed_out_packets|packet_ack)$', r'^rmc_pub_timeout_process$', r'^process_(subscriber|sent_packet)_timeout$'], 'fz': ['pubsim', 'netpub'],
            'bounded': RMCPUB,
            'note': 'timeout processing verified from rmc_pub_timeout_process down, for all contexts, times and buffer states: who is resent what, in which order, what is dropped and what is kept; ' + T},
    'C07': {'roots': [r'^pub_get_oldest_unackowledged_packet$', r'^rmc_pub_timeout_get_next$', r'^sub_oldest_unacknowledged_packet$'], 'fz': ['pubsim', 'netpub', 'subsim', 'netsub'],
            'bounded': RMCPUB + RMCSUB,
            'note': 'the pub.c and sub.c queries verified for all contexts; ' + T + '; the rmc_* callers only by bounded native histories'},
    'C08': {'roots': [r'^sub_(packet_received|process_received_packets|init_publisher)$'], 'fz': ['subsim', 'netsub'],
            'bounded': RMCSUB,
            'note': 'sub.c reordering verified for all publishers and packets; ' + T + '; the rmc_sub_* callers only by bounded native histories'},
    'C09': {'roots': [r'^sub_packet_is_duplicate$'], 'fz': ['subsim', 'netsub'],
            'bounded': RMCSUB,
            'note': 'duplicate test verified for all publishers and ids; ' + T + '; the rmc_sub_* callers only by bounded native histories'},
    'C10': {'roots': [r'^sub_packet_(add_to_received_interval|received)$', r'^rmc_sub_packet_received$'], 'fz': ['subsim', 'netsub'],
            'bounded': RMCSUB,
            'note': 'interval bookkeeping verified for all publishers and ids; ' + T + '; the rmc_sub_* callers only by bounded native histories'},
    'C11': {'roots': [r'^sub_(oldest_unacknowledged_packet|packet_received)$', r'^rmc_sub_packet_received$'], 'fz': ['subsim', 'netsub'],
            'bounded': RMCSUB,
            'note': 'what is to be acknowledged and since when verified for all publishers; ' + T + '; the rmc_sub_* callers only by bounded native histories'},
    'C12': {'roots': [r'^rmc_(pub_resend_packet|sub_write_interval_acknowledgement|sub_write_control_message)$'], 'fz': ['netpub', 'netsub'],
            'bounded': RMCPUB + RMCSUB,
            'note': 'the three encoders verified byte by byte for all buffer layouts and connection states; ' + T + '; their rmc_* callers only by bounded native histories'},
    'C13': {'roots': [r'^rmc_conn_(process_)?tcp_read$', r'^process_(cmd_ack_interval|control_message|cmd_packet)$', r'^circ_buf_(read|read_offset|free|alloc|trim|in_use|available)$'], 'fz': ['netpub', 'netsub'],
            'bounded': RMCPUB + RMCSUB,
            'note': 'reading, dispatching and the three command handlers verified for all buffer layouts, splits and contexts; ' + T + '; the contract of readv; rmc_pub_read and rmc_sub_read themselves only by bounded native histories'},
    'C14': {'roots': [r'^rmc_conn_process_tcp_write$', r'^rmc_(pub|sub)_write$'], 'fz': ['netpub', 'netsub'],
            'bounded': RMCPUB + RMCSUB,
            'note': 'rmc_conn_process_tcp_write verified for all connection tables, buffers and kernel answers; ' + T + '; the contract of writev; the rmc_* callers only by bounded native histories'},
    'C15': {'roots': [r'^(process_)?multicast_read$', r'^rmc_sub_packet_received$', r'^sub_packet_(received|is_duplicate)$', r'^rmc_conn_find_by_address$'], 'fz': ['netsub'],
            'bounded': ['rmc_sub_read.c: rmc_sub_read'],
            'note': 'receiving and processing datagrams verified for all contents, lengths, senders and contexts: what is rejected, what is ignored, what is delivered and recorded; ' + T + '; the contract of recvfrom; rmc_sub_read itself only by bounded native histories'},
    'C16': {'roots': [r'^(process_)?multicast_read$', r'^rmc_sub_write$', r'^rmc_pub_read$', r'^rmc_conn_(connect_tcp_by_address|find_by_address|complete_connection|process_accept)$'], 'fz': ['netpub', 'netsub'],
            'bounded': ['rmc_sub_read.c: rmc_sub_read', 'rmc_pub_read.c: rmc_pub_read beyond accepting'],
            'note': 'announcements, connecting, completing a connection and accepting verified for all contexts and datagrams; ' + T + '; the contracts of the socket calls'},
    'C17': {'roots': [r'^rmc_conn_(find_|init|close|connect_tcp|process_accept|complete|get_)', r'^rmc_pub_close_connection$'], 'fz': ['netpub', 'netsub'],
            'bounded': RMCPUB + RMCSUB,
            'note': 'every operation on the connection table verified against a table invariant with finite cardinality; ' + T + '; contracts of the socket calls; the rmc_* callers only by bounded native histories'},
    'C18': {'roots': [r'^pub_(queue_packet|packet_ack|packet_sent)$', r'^rmc_pub_(queue_packet|packet_ack|close_connection|throttling|traffic_suspended)$', r'^process_cmd_ack_interval$'], 'fz': ['netpub'],
            'bounded': RMCPUB,
            'note': 'the count of packets in flight verified for all contexts; ' + T + '; the rmc_pub_* callers only by bounded native histories'},
    'C19': {'roots': [r'^rmc_pub_(queue_packet|write)$', SEND], 'fz': ['netpub'],
            'bounded': RMCPUB,
            'note': 'queueing and multicasting verified for all contexts: refusals, header bytes, addressing, one datagram per packet in queue order, retry after errors; ' + T + '; the contract of sendmsg; rmc_pub_write only by bounded native histories'},
    'C20': {'roots': [r'^pub_(reset_subscriber|packet_ack)$', r'^rmc_pub_close_connection$'], 'fz': ['pubsim', 'netpub'],
            'bounded': RMCPUB,
            'note': 'pub_reset_subscriber verified for all contexts; ' + T + '; the rmc_pub_* callers only by bounded native histories'},
    'C21': {'roots': [r'^sub_(reset_publisher|packet_received|process_received_packets)$'], 'fz': ['subsim', 'netsub'],
            'bounded': RMCSUB,
            'note': 'sub.c payload ownership verified for all publishers; ' + T + '; the rmc_sub_* callers only by bounded native histories'},
    'C22': {'roots': [r'^rmc_pub_(timeout_process|timeout_get_next|set_announce_interval|queue_packet)$'], 'fz': ['netpub'],
            'bounded': RMCPUB,
            'note': 'announcing verified for all contexts, times and callback answers; ' + T + '; the contract of the announce callback'},
    'C23': {'roots': [r'^rmc_pub_(context_get_pending|context_has_pending_send|queue_length)$', r'^rmc_conn_get_pending_send_length$'], 'fz': ['netpub'],
            'bounded': RMCPUB,
            'note': 'the statistics verified for all contexts against recursively defined sums; ' + T + '; sums below 2^31'},
    'C24': {'roots': [r'^pub_packet_ack$', r'^rmc_pub_packet_ack$', r'^process_cmd_ack_interval$'], 'fz': ['netpub'],
            'bounded': RMCPUB,
            'note': 'acknowledging one packet verified for all contexts; ' + T + '; the interval loop in rmc_pub_read.c only by bounded native histories'},
}
NA = {
    'C25': 'liveness over unbounded fair schedules of two processes and a lossy network: not expressible as a contract over one call or one data structure; the safety side is covered by C04-C13',
}
