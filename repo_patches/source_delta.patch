From 5629e8f708d8c64ae9a36438c752109005f5b8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 01/28] fix: circ_buf_trim() moved stop index out of the buffer
 when trimming wrapped data

---
 circular_buffer.c | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/circular_buffer.c b/circular_buffer.c
index ad0585a..84f9d22 100644
--- a/circular_buffer.c
+++ b/circular_buffer.c
@@ -108,23 +108,8 @@ void circ_buf_trim(circ_buf_t* circ_buf, uint32_t target_len)
     if (in_use <= target_len)
         return;
 
-    // target_len: 1
-    // Before
-    // Index:     [0][1][2][3][4]
-    // Data:       A  B  C  D  -
-    // Start/stop  S           s
-    //
-    // After
-    // Index:     [0][1][2][3][4]
-    // Data:       A  B  -  -  -
-    // Start/stop  S  s
-    //
-    if (circ_buf->stop_ind > target_len) {
-        circ_buf->stop_ind -= in_use - target_len;
-        return;
-    }
-
-    // We need to wrap stop_ind back to the end of the buffer.
+    // stop_ind always ends up target_len bytes after start_ind,
+    // which may wrap it back to the end of the buffer.
     //
     // target_len: 1
     // Before
-- 
2.43.0


From 354971b3baffe4036fc2a793d7fe7f761ab134d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 02/28] fix: circ_buf_read_offset() applied the offset twice to
 data wrapping around the buffer end

---
 circular_buffer.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/circular_buffer.c b/circular_buffer.c
index 84f9d22..52fc3e6 100644
--- a/circular_buffer.c
+++ b/circular_buffer.c
@@ -221,14 +221,10 @@ int circ_buf_read_offset(circ_buf_t* circ_buf,
     // 0 to either stop_ind (last data byte) or the number of bytes left
     // wanted by the caller, whichever is smaller.
     len -= segment_len;
-    if (offset > segment_len)
-        offset -= segment_len;
-    else
-        offset = 0;
 
     segment_len = RMC_MIN(len, circ_buf->stop_ind);
 
-    memcpy(target + copied_bytes, circ_buf->buffer + offset, segment_len);
+    memcpy(target + copied_bytes, circ_buf->buffer, segment_len);
 
     copied_bytes += segment_len;
 
-- 
2.43.0


From 504eb66da06f59791cf53e3b310c409621fc0a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 03/28] fix: circ_buf_alloc() left stop index at buffer end,
 handing out a zero byte first segment next call

---
 circular_buffer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/circular_buffer.c b/circular_buffer.c
index 52fc3e6..f253df3 100644
--- a/circular_buffer.c
+++ b/circular_buffer.c
@@ -77,7 +77,9 @@ int circ_buf_alloc(circ_buf_t* circ_buf,
         *segment1_len = len;
         *segment2 = 0;
         *segment2_len = 0;
-        circ_buf->stop_ind += len;
+
+        // Wrap stop if we filled the buffer to its very end.
+        circ_buf->stop_ind = (circ_buf->stop_ind + len) % buf_size;
         return 0;
     }
 
-- 
2.43.0


From 0f825c677b06e02c5e04fd8823e7ccc9eb7a5e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 04/28] fix: wrapped control messages were filled with stack
 data instead of the payload

---
 rmc_sub_write.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_sub_write.c b/rmc_sub_write.c
index a89713f..dfc1713 100644
--- a/rmc_sub_write.c
+++ b/rmc_sub_write.c
@@ -213,7 +213,7 @@ int rmc_sub_write_control_message(rmc_sub_context_t* ctx,
         memcpy(seg1, (uint8_t*) payload, seg1_len);
 
        if (seg2_len)
-            memcpy(seg2, ((uint8_t*) &payload) + seg1_len, seg2_len);
+            memcpy(seg2, ((uint8_t*) payload) + seg1_len, seg2_len);
 
 
         // We always want to read from the tcp  socket.
-- 
2.43.0


From 7cfd014076d637a399e56851369f441694c5d64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 05/28] fix: ack intervals reaching beyond the last sent packet
 hung the publisher

---
 rmc_pub_read.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 68c22b9..29112e3 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -34,6 +34,11 @@ static int process_cmd_ack_interval(rmc_connection_t* conn, user_data_t user_dat
     RMC_LOG_INDEX_COMMENT(conn->connection_index,
                           "process_cmd_ack_interval(): interval[%lu:%lu]", ack.first_pid, ack.last_pid);
 
+    // Nothing beyond the last pid that we have handed out can be acknowledged.
+    // Stops a corrupt interval from having us loop for up to 2^64 pids.
+    if (ack.last_pid >= ctx->pub_ctx.next_pid)
+        ack.last_pid = ctx->pub_ctx.next_pid - 1;
+
     // Mark all packets in the interval as acknwoledged, and call the
     // payload free function provided to rmc_pub_init_context(). If no
     // function is provided, free() will bre called.
-- 
2.43.0


From c6f4e973818364473dc3457b553084ae26d3c0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 06/28] fix: timed out packets were not resent while a newer
 packet had not timed out yet

---
 pub.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pub.c b/pub.c
index b483f18..9942e9a 100644
--- a/pub.c
+++ b/pub.c
@@ -322,13 +322,14 @@ void pub_get_timed_out_packets(pub_subscriber_t* sub,
                                usec_timestamp_t timeout_period, // Number of usecs until timeout
                                pub_packet_list_t* result)
 {
-    pub_packet_node_t* pack_node = pub_packet_list_head(&sub->inflight);
+    // Oldest packet, with the lowest pid, is at the tail.
+    pub_packet_node_t* pack_node = pub_packet_list_tail(&sub->inflight);
 
     // Traverse all inflight packets for subscriber until we find one that is not timed out.x
     while(pack_node &&
           pack_node->data->send_ts + timeout_period <= current_ts) {
         pub_packet_list_push_tail(result, pack_node->data);
-        pack_node = pub_packet_list_next(pack_node);
+        pack_node = pub_packet_list_prev(pack_node);
     }
 
     return;
-- 
2.43.0


From ed5a8937ed0cf9f6cd57ee43988d152020427d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 07/28] fix: failed accept leaked its connection slot, or
 closed an unrelated connection

---
 rmc_connection.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index 73730e2..c2ef8d0 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -354,8 +354,11 @@ int rmc_conn_process_accept(int listen_descriptor,
                                                       (struct sockaddr*) &src_addr,
                                                       &addr_len);
 
-    if (conn_vec->connections[c_ind].descriptor == -1)
-        return errno;
+    if (conn_vec->connections[c_ind].descriptor == -1) {
+        sock_err = errno;
+        _reset_max_connection_ind(conn_vec);
+        return sock_err;
+    }
 
     // Set nonblocking mode on the socket.
     desc_flags = fcntl(conn_vec->connections[c_ind].descriptor, F_GETFL, 0);
@@ -368,7 +371,11 @@ int rmc_conn_process_accept(int listen_descriptor,
     // out acks.
     if (setsockopt(conn_vec->connections[c_ind].descriptor, IPPROTO_TCP, TCP_NODELAY, (void *)&tr, sizeof(tr))) {
         sock_err = errno;
-        rmc_conn_close_connection(conn_vec, conn_vec->connections[c_ind].descriptor);
+
+        // The connection is not yet up and known to the poll callbacks.
+        close(conn_vec->connections[c_ind].descriptor);
+        conn_vec->connections[c_ind].descriptor = -1;
+        _reset_max_connection_ind(conn_vec);
         return sock_err;
     }
 
-- 
2.43.0


From 3bc5b5e4ee5510508b24c91f59f223e8ebd5fe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 08/28] fix: accepted connections reported remote address in
 network order and no remote port

---
 rmc_connection.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index c2ef8d0..ba15821 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -380,7 +380,8 @@ int rmc_conn_process_accept(int listen_descriptor,
     }
 
     conn_vec->connections[c_ind].mode = RMC_CONNECTION_MODE_CONNECTED;
-    conn_vec->connections[c_ind].remote_address = src_addr.sin_addr.s_addr;
+    conn_vec->connections[c_ind].remote_address = ntohl(src_addr.sin_addr.s_addr);
+    conn_vec->connections[c_ind].remote_port = ntohs(src_addr.sin_port);
 
     conn_vec->connections[c_ind].action = RMC_POLLREAD;
     if (conn_vec->poll_add)
-- 
2.43.0


From 558fc2c6b0cfd527cb6cf708f1302d6a7a632d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 09/28] fix: poll_remove callback was made twice for a
 connection that failed to complete

---
 rmc_connection.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index ba15821..ab46b05 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -211,9 +211,6 @@ int rmc_conn_complete_connection(rmc_connection_vector_t* conn_vec,
                               conn->remote_port,
                               strerror(sock_err));
 
-        if (conn_vec->poll_remove)
-            (*conn_vec->poll_remove)(conn_vec->user_data, conn->descriptor, conn->connection_index);
-
         rmc_conn_close_connection(conn_vec, conn->connection_index);
 
         return sock_err;
@@ -230,9 +227,6 @@ int rmc_conn_complete_connection(rmc_connection_vector_t* conn_vec,
                               conn->remote_port,
                               strerror(sock_err));
 
-        if (conn_vec->poll_remove)
-            (*conn_vec->poll_remove)(conn_vec->user_data, conn->descriptor, conn->connection_index);
-
         rmc_conn_close_connection(conn_vec, conn->connection_index);
         return sock_err;
     }
-- 
2.43.0


From 82945f284ef65bd45190c682c430b3c97fefcffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 10/28] fix: immediately successful connect returned a stale
 errno, failed socket() left slot marked in use

---
 rmc_connection.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/rmc_connection.c b/rmc_connection.c
index ab46b05..35564d2 100644
--- a/rmc_connection.c
+++ b/rmc_connection.c
@@ -273,8 +273,11 @@ int rmc_conn_connect_tcp_by_address(rmc_connection_vector_t* conn_vec,
 
 
     conn_vec->connections[c_ind].descriptor = socket(AF_INET, SOCK_STREAM, 0);
-    if (conn_vec->connections[c_ind].descriptor == -1)
-        return errno;
+    if (conn_vec->connections[c_ind].descriptor == -1) {
+        res = errno;
+        _reset_max_connection_ind(conn_vec);
+        return res;
+    }
 
     // Set nonblocking mode on the socket.
     desc_flags = fcntl(conn_vec->connections[c_ind].descriptor, F_GETFL, 0);
@@ -296,9 +299,8 @@ int rmc_conn_connect_tcp_by_address(rmc_connection_vector_t* conn_vec,
         return 0; // This is not an error, just a failed subscriber setup.
     }
 
-    // Nil out the in progress error.
-    res = (errno == EINPROGRESS)?0:errno;
-
+    // Connected or in progress. Neither is an error.
+    res = 0;
 
     conn_vec->connections[c_ind].remote_address = address;
     conn_vec->connections[c_ind].remote_port = port;
-- 
2.43.0


From 3b40b1a01d8a754f155ce49ad231d2df5c924f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 11/28] fix: announce received while connecting to its
 publisher set up a second connection

---
 rmc_sub_read.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index a77ee4c..fb18a3c 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -169,8 +169,17 @@ static int process_multicast_read(rmc_sub_context_t* ctx, uint8_t* read_res, uin
     // If no socket is setup, initiate the connection to the publisher.
     // Drop the recived packet
 
-    if (!conn || conn->mode == RMC_CONNECTION_MODE_CONNECTING) {
-        RMC_LOG_INDEX_DEBUG(conn?conn->connection_index:RMC_NIL_INDEX, "mode[%d]", conn?conn->mode:-1);
+    // If we are already connecting to the publisher, just drop the packet.
+    if (conn && conn->mode == RMC_CONNECTION_MODE_CONNECTING) {
+        RMC_LOG_INDEX_DEBUG(conn->connection_index, "Connection in progress. Packet ignored");
+
+        if (read_res)
+            *read_res = RMC_READ_MULTICAST_NOT_READY;
+
+        return 0;
+    }
+
+    if (!conn) {
         res = decode_unsubscribed_multicast(ctx,
                                             pack_hdr,
                                             data);
-- 
2.43.0


From 3f13bb22f70290e3ddc4722e48f6716f21aee064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 12/28] fix: closing a connection being set up, or one not
 open, reset an uninitialized publisher

---
 rmc_sub_context.c | 6 ++++++
 rmc_sub_read.c    | 5 ++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index d18a6f8..daea1a9 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -49,6 +49,7 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
     unsigned int seed = rmc_usec_monotonic_timestamp() & 0xFFFFFFFF;
     rmc_sub_context_t* ctx;
     uint8_t* conn_vec = 0;
+    uint32_t ind = 0;
 
     if (!context_res || !mcast_group_addr)
         return EINVAL;
@@ -123,6 +124,11 @@ int rmc_sub_init_context(rmc_sub_context_t** context_res,
     // FIXME: Better memory management
     ctx->publishers = malloc(sizeof(sub_publisher_t) * max_publishers);
 
+    // A publisher can be reset, through rmc_sub_close_connection(), before
+    // its connection is complete.
+    for(ind = 0; ind < max_publishers; ++ind)
+        sub_init_publisher(&ctx->publishers[ind]);
+
     RMC_LOG_DEBUG("Subscriber Context init. node_id[%u] mcast_group[%s:%d] mcast_if[%s] user_data[%u]",
                   ctx->node_id, mcast_group_addr, multicast_port, mcast_if_addr, user_data.u32);
     return 0;
diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index fb18a3c..47cc592 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -363,9 +363,12 @@ static void _payload_free_generic(void* payload, payload_len_t payload_len, user
 
 int rmc_sub_close_connection(rmc_sub_context_t* ctx, rmc_index_t s_ind)
 {
+    int res = 0;
     RMC_LOG_INDEX_COMMENT(s_ind, "rmc_sub_close_connection(): called");
 
-    rmc_conn_close_connection(&ctx->conn_vec, s_ind);
+    res = rmc_conn_close_connection(&ctx->conn_vec, s_ind);
+    if (res)
+        return res;
 
     sub_reset_publisher(&ctx->publishers[s_ind],
                         ctx->payload_free?ctx->payload_free:_payload_free_generic);
-- 
2.43.0


From 9ff19367d9fc824089cd7ad78f9d51b0065d7b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 13/28] fix: rmc_sub_deactivate_context() leaked payload of
 undispatched packets

---
 rmc_sub_context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_sub_context.c b/rmc_sub_context.c
index daea1a9..ede24de 100644
--- a/rmc_sub_context.c
+++ b/rmc_sub_context.c
@@ -237,7 +237,7 @@ int rmc_sub_deactivate_context(rmc_sub_context_t* ctx)
         return EINVAL;
 
     // Empty all packets that are dispatch ready.
-    while(sub_packet_list_pop_head(&ctx->dispatch_ready, &pack))
+    while((pack = rmc_sub_get_next_dispatch_ready(ctx)))
         rmc_sub_packet_dispatched(ctx, pack);
 
     // Empty ack list
-- 
2.43.0


From 53e96cde9c1edf1589ab9019d129780b10a93aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 14/28] fix: control message callback was left uninitialized by
 rmc_pub_init_context()

---
 rmc_pub_context.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rmc_pub_context.c b/rmc_pub_context.c
index 4c77812..775fbba 100644
--- a/rmc_pub_context.c
+++ b/rmc_pub_context.c
@@ -127,8 +127,7 @@ int rmc_pub_init_context(rmc_pub_context_t** context_res,
 
     ctx->subscriber_connect_cb = 0;
     ctx->subscriber_disconnect_cb = 0;
-
-    ctx->subscriber_connect_cb = 0;
+    ctx->subscriber_control_message_cb = 0;
 
     ctx->announce_cb = 0;
     ctx->announce_send_interval = 0;
-- 
2.43.0


From 34934e548fbb3dd238ec57939b84f5e128f15802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 15/28] fix: suspended traffic was never resumed if the
 subscriber lagging behind disconnected

---
 rmc_pub_read.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 29112e3..a1b39ee 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -118,6 +118,13 @@ int rmc_pub_close_connection(rmc_pub_context_t* ctx, rmc_index_t s_ind)
     RMC_LOG_INDEX_INFO(s_ind, "rmc_pub_close_connection() - ok");
     pub_reset_subscriber(&ctx->subscribers[s_ind],
                          ctx->payload_free?ctx->payload_free:_generic_payload_free);
+
+    // Packets only waiting for this subscriber are gone.
+    // Check if we are to resume suspended traffic.
+    if (ctx->traffic_suspended &&
+        pub_get_unacknowledged_packet_count(&ctx->pub_ctx) <= ctx->traffic_resume_threshold)
+        ctx->traffic_suspended = 0;
+
     return 0;
 }
 
-- 
2.43.0


From cfd4169e7c7d8d25abb28d60d621acdb5e56f999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 16/28] fix: packet acks were lost if there was no buffer space
 to send them

---
 rmc_sub_timeout.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rmc_sub_timeout.c b/rmc_sub_timeout.c
index d7a4a13..a63019b 100644
--- a/rmc_sub_timeout.c
+++ b/rmc_sub_timeout.c
@@ -66,13 +66,18 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
 
         // For each publisher that we have a timed out ack  for, we will ack
         // all pending packets in one go.
-        while(sub_pid_interval_list_pop_head(&pub->received_interval, &pid_intv)) {
+        while(sub_pid_interval_list_size(&pub->received_interval)) {
             int res = 0;
+
+            pid_intv = sub_pid_interval_list_head(&pub->received_interval)->data;
             res = rmc_sub_packet_interval_acknowledged(ctx, inode->data, &pid_intv);
             if (res) {
                 RMC_LOG_INDEX_INFO(inode->data,"Failed to send packet ack: %s", strerror(res));
                 return res;
             }
+
+            // Only discard the interval once its ack has been queued.
+            sub_pid_interval_list_pop_head(&pub->received_interval, &pid_intv);
         }
 
         rmc_index_list_delete(inode);
-- 
2.43.0


From 7bde035afba3612f20caf679f32c5ceb0e96b0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 17/28] fix: publishers were queued for acks before the
 timestamp they are sorted on was recorded

---
 rmc_sub_packet.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/rmc_sub_packet.c b/rmc_sub_packet.c
index 6329934..0087ca4 100644
--- a/rmc_sub_packet.c
+++ b/rmc_sub_packet.c
@@ -37,27 +37,27 @@ int rmc_sub_packet_received(rmc_sub_context_t* ctx,
                             user_data_t pkg_user_data)
 {
     sub_publisher_t* pub = &ctx->publishers[index];
+    int ack_pending = sub_pid_interval_list_size(&pub->received_interval) != 0;
 
+    sub_packet_received(&ctx->publishers[index],
+                        pid,
+                        payload,
+                        payload_len,
+                        1, // We want to add this packet to receive interval so that we can ack it.
+                        rmc_usec_monotonic_timestamp(),
+                        user_data_u32(index));
 
     // If this packet is the first one that needs to be acked for the
     // given publisher, then add the index of the publisher (and
     // connection) into the ctx->pub_ack_list.
     // The list is sorted on oldest unacknowledged packet.
     //
-    if (!sub_oldest_unacknowledged_packet(pub))
+    if (!ack_pending)
         rmc_index_list_insert_sorted_rev(&ctx->pub_ack_list,
                                          index,
                                          _compare_oldest_unackowledged_packet,
                                          ctx);
 
-    sub_packet_received(&ctx->publishers[index],
-                        pid,
-                        payload,
-                        payload_len,
-                        1, // We want to add this packet to receive interval so that we can ack it.
-                        rmc_usec_monotonic_timestamp(),
-                        user_data_u32(index));
-
     return 0;
 }
 
-- 
2.43.0


From bc291c7b20fa7bac4dbd2a9328162bdc0fedc13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 18/28] fix: sub_oldest_unacknowledged_packet() ignored older
 packets with a higher pid

---
 sub.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sub.c b/sub.c
index 34d0e95..edfee84 100644
--- a/sub.c
+++ b/sub.c
@@ -194,10 +194,21 @@ inline user_data_t sub_packet_user_data(sub_packet_t* pack)
 
 usec_timestamp_t sub_oldest_unacknowledged_packet(sub_publisher_t* pub)
 {
+    sub_pid_interval_node_t* inode = 0;
+    usec_timestamp_t oldest = 0;
+
     if (!pub || !sub_pid_interval_list_size(&pub->received_interval))
         return 0;
 
-    return sub_pid_interval_list_head(&pub->received_interval)->data.receive_ts;
+    // Intervals are sorted on pid, not on when they were received.
+    inode = sub_pid_interval_list_head(&pub->received_interval);
+    oldest = inode->data.receive_ts;
+
+    while((inode = sub_pid_interval_list_next(inode)))
+        if (inode->data.receive_ts < oldest)
+            oldest = inode->data.receive_ts;
+
+    return oldest;
 }
 
 // Add the pid of a received packet to the number of
-- 
2.43.0


From c03761581fe52c2793229b92baa083a736b40823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 19/28] fix: closed publisher connections were left in list of
 pending acks

---
 rmc_sub_read.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index 47cc592..275030e 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -364,12 +364,22 @@ static void _payload_free_generic(void* payload, payload_len_t payload_len, user
 int rmc_sub_close_connection(rmc_sub_context_t* ctx, rmc_index_t s_ind)
 {
     int res = 0;
+    rmc_index_node_t* inode = 0;
+
     RMC_LOG_INDEX_COMMENT(s_ind, "rmc_sub_close_connection(): called");
 
     res = rmc_conn_close_connection(&ctx->conn_vec, s_ind);
     if (res)
         return res;
 
+    // Nothing left to acknowledge to the publisher.
+    inode = rmc_index_list_head(&ctx->pub_ack_list);
+    while(inode && inode->data != s_ind)
+        inode = rmc_index_list_next(inode);
+
+    if (inode)
+        rmc_index_list_delete(inode);
+
     sub_reset_publisher(&ctx->publishers[s_ind],
                         ctx->payload_free?ctx->payload_free:_payload_free_generic);
     return 0;
-- 
2.43.0


From 0f49aa9c651c4035bd192a9bd01b97a4a6888e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 20/28] fix: failed tcp read corrupted the amount of buffered
 data

---
 rmc_protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmc_protocol.c b/rmc_protocol.c
index c75fec7..4ab1947 100644
--- a/rmc_protocol.c
+++ b/rmc_protocol.c
@@ -226,7 +226,7 @@ int rmc_conn_tcp_read(rmc_connection_vector_t* conn_vec,
         *op_res = RMC_READ_DISCONNECT;
 
         // Give back the memory.
-        circ_buf_trim(&conn->read_buf, available);
+        circ_buf_trim(&conn->read_buf, orig_in_use);
         return EPIPE;
     }
 
-- 
2.43.0


From 82ce2f355f469ce9d779867a4f96db2ff83d82db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 21/28] fix: publisher kept a connection with an unparseable
 command stream open forever

---
 rmc_pub_read.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index a1b39ee..9224811 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -225,6 +225,13 @@ int rmc_pub_read(rmc_pub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
         return 0; // This is not an error, just regular maintenance.
     }
 
+    // There is no way of finding the next command in a corrupt stream.
+    if (res == EPROTO) {
+        RMC_LOG_INDEX_COMMENT(s_ind, "tcp read returned EPROTO");
+        rmc_pub_close_connection(ctx, s_ind);
+        return res;
+    }
+
     // Read poll is always active. Callback to re-arm.
     old_action = conn->action;
     rmc_conn_get_pending_send_length(conn, &write_buf_sz);
-- 
2.43.0


From e5796524487e13f8e2e6b8adcbd5561ed3270639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 22/28] fix: a subscriber with a full send buffer blocked
 packet resends to other subscribers

---
 rmc_pub_timeout.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/rmc_pub_timeout.c b/rmc_pub_timeout.c
index da3fd1e..30a47ee 100644
--- a/rmc_pub_timeout.c
+++ b/rmc_pub_timeout.c
@@ -165,17 +165,18 @@ int rmc_pub_timeout_process(rmc_pub_context_t* ctx)
     // Traverse the list of subscribers and process their timed out packets
     // by sending them via the TCP control channel.
     while(pub_sub_list_pop_head(&subs, &sub)) {
-        res = process_subscriber_timeout(ctx, sub, current_ts);
+        int sub_res = process_subscriber_timeout(ctx, sub, current_ts);
 
-        if (res) {
-            // Clean up the list.
-            RMC_LOG_COMMENT("subscriber timeout failed: %s", strerror(res));
-            pub_sub_list_empty(&subs);
-            return res;
+        // Do not have one stalled subscriber block resends to the others.
+        if (sub_res) {
+            RMC_LOG_COMMENT("subscriber timeout failed: %s", strerror(sub_res));
+
+            if (!res)
+                res = sub_res;
         }
     }
 
-    return 0;
+    return res;
 }
 
 
-- 
2.43.0


From 8ae3b69bfd9c00911577cdb984fce592635ac764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 23/28] fix: packets sent without acknowledgement were never
 freed

---
 pub.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pub.c b/pub.c
index 9942e9a..23feb3e 100644
--- a/pub.c
+++ b/pub.c
@@ -204,8 +204,12 @@ void pub_packet_sent(pub_context_t* ctx,
 
     // Do not set packet up for acknowledgement if pid is 0, which
     // means that it should not be acked at all by the subscriber.
-    if (!pack->pid)
+    // The payload is still owned by the caller.
+    if (!pack->pid) {
+        (*ctx->queued.free_node)(pack->parent_node, ctx->queued.user_data);
+        _free_pending_packet(pack);
         return;
+    }
 
     // Insert existing pack->parent list_node_t struct into
     // the context's inflight packets.
-- 
2.43.0


From 048c35b19009d1c0d6d80fad4d3ca6e39afeb88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 24/28] fix: packets sent while there were no subscribers
 stayed in flight forever

---
 pub.c           | 34 ++++++++++++++++++++++------------
 rmc_pub.h       |  6 ++++++
 rmc_pub_write.c | 10 ++++++++++
 3 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/pub.c b/pub.c
index 23feb3e..26b9e14 100644
--- a/pub.c
+++ b/pub.c
@@ -237,6 +237,26 @@ void pub_packet_sent(pub_context_t* ctx,
 }
 
 
+void pub_packet_discard(pub_packet_t* pack,
+                        void (*pub_payload_free)(void* payload,
+                                                 payload_len_t payload_len,
+                                                 user_data_t user_data))
+{
+    assert(pack);
+
+    pub_packet_list_delete(pack->parent_node);
+
+    // Free data using function provided with this call.
+    if (pub_payload_free)
+        (*pub_payload_free)(pack->payload,
+                            pack->payload_len,
+                            pack->pkg_user_data);
+
+    // Delete the pack.
+    _free_pending_packet(pack);
+}
+
+
 void pub_packet_ack(pub_subscriber_t* sub,
                     packet_id_t pid,
                     void (*pub_payload_free)(void* payload,
@@ -281,18 +301,8 @@ void pub_packet_ack(pub_subscriber_t* sub,
     // list. pack->parent_node points to the list_node_t struct in the pending
     // list that is to be unlinked and deleted.
     //
-    if (!pack->ref_count) {
-        pub_packet_list_delete(pack->parent_node);
-
-        // Free data using function provided with this call.
-        if (pub_payload_free)
-            (*pub_payload_free)(pack->payload,
-                                pack->payload_len,
-                                pack->pkg_user_data);
-
-        // Delete the pack.
-        _free_pending_packet(pack);
-    }
+    if (!pack->ref_count)
+        pub_packet_discard(pack, pub_payload_free);
 }
 
 uint32_t pub_get_unacknowledged_packet_count(pub_context_t* ctx)
diff --git a/rmc_pub.h b/rmc_pub.h
index 4fbc496..a3462a9 100644
--- a/rmc_pub.h
+++ b/rmc_pub.h
@@ -136,6 +136,12 @@ extern void pub_packet_sent(pub_context_t* ctx,
                             pub_packet_t* ppack,
                             usec_timestamp_t send_ts);
 
+// Remove and free a packet that no subscriber is to acknowledge.
+extern void pub_packet_discard(pub_packet_t* pack,
+                               void (*pub_payload_free)(void* payload,
+                                                        payload_len_t payload_len,
+                                                        user_data_t user_data));
+
 extern void pub_packet_ack(pub_subscriber_t* sub,
                            packet_id_t pid,
                            // Called if this was the last subscriber acking the packet
diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index c16e524..d30eb0b 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -31,12 +31,18 @@ static void setup_packet_header(rmc_pub_context_t* ctx,
     pack_hdr->listen_port = ctx->control_listen_port;
 }
 
+static void _payload_free_generic(void* payload, payload_len_t payload_len, user_data_t user_data)
+{
+    free(payload);
+}
+
 // FIXME: If we see timed out (== lost) packets from subscribers, we should
 //        switch them to TCP for a period of time in order
 //        to use TCP's flow control until congestion has eased.
 static int send_single_multicast_packet(rmc_pub_context_t* ctx, pub_packet_t* pack)
 {
     pub_context_t* pctx = &ctx->pub_ctx;
+    packet_id_t pid = pack->pid;
     ssize_t res = 0;
     packet_header_t pack_hdr;
     struct msghdr msg_hdr;
@@ -106,6 +112,10 @@ static int send_single_multicast_packet(rmc_pub_context_t* ctx, pub_packet_t* pa
 
     pub_packet_sent(pctx, pack, rmc_usec_monotonic_timestamp());
 
+    // If we have no subscribers, nobody will ever acknowledge the packet.
+    if (pid && !pack->ref_count)
+        pub_packet_discard(pack, ctx->payload_free?ctx->payload_free:_payload_free_generic);
+
     res = 0;
 rearm:
     if (ctx->conn_vec.poll_modify) {
-- 
2.43.0


From 09e5adb2b1d85c50418ed36d71c2f1c9845d03c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 25/28] fix: announcements were sent with the payload taken
 from a stack frame no longer in use

---
 rmc_internal.h    |  4 ++++
 rmc_pub_timeout.c | 12 +++++++-----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/rmc_internal.h b/rmc_internal.h
index 8068eaa..40191fe 100644
--- a/rmc_internal.h
+++ b/rmc_internal.h
@@ -188,6 +188,10 @@ struct rmc_pub_context {
     usec_timestamp_t announce_next_send_ts;
 
 
+    // Payload of the last announcement queued by rmc_pub_timeout_process().
+    // Has to stay in place until the announcement has been sent.
+    uint8_t announce_payload[RMC_MAX_PAYLOAD];
+
     // At how manu inflight packets do we suspend rmc_pub_queue_packet() from accepting
     // more packets.
     // Once stopped the inflight count needs to go below traffic_resume_threshold
diff --git a/rmc_pub_timeout.c b/rmc_pub_timeout.c
index 30a47ee..6d33b49 100644
--- a/rmc_pub_timeout.c
+++ b/rmc_pub_timeout.c
@@ -131,7 +131,6 @@ int rmc_pub_timeout_process(rmc_pub_context_t* ctx)
     if (ctx->announce_send_interval &&
         ctx->announce_next_send_ts != 0 &&
         ctx->announce_next_send_ts - current_ts <= 0) {
-        char buffer[RMC_MAX_PAYLOAD];
         payload_len_t len = 0;
         uint8_t send_announce = 1;
 
@@ -139,14 +138,17 @@ int rmc_pub_timeout_process(rmc_pub_context_t* ctx)
         // announcement packet.
         // If callback returns 0, do not send announce
         if (ctx->announce_cb)
-            send_announce = (*ctx->announce_cb)(ctx, buffer, sizeof(buffer), &len);
+            send_announce = (*ctx->announce_cb)(ctx,
+                                                ctx->announce_payload,
+                                                sizeof(ctx->announce_payload),
+                                                &len);
 
-        if (len > sizeof(buffer))
-            len = sizeof(buffer);
+        if (len > sizeof(ctx->announce_payload))
+            len = sizeof(ctx->announce_payload);
 
         if (send_announce) {
             RMC_LOG_DEBUG("Sending announce");
-            rmc_pub_queue_packet(ctx, buffer, len, 1);
+            rmc_pub_queue_packet(ctx, ctx->announce_payload, len, 1);
         }
 
         // Setup next announce.
-- 
2.43.0


From b750b54902558786e56c82fe383e0479de83ff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 26/28] fix: missing return for null publisher context argument

---
 rmc_pub_read.c  | 2 +-
 rmc_pub_write.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rmc_pub_read.c b/rmc_pub_read.c
index 9224811..4028023 100644
--- a/rmc_pub_read.c
+++ b/rmc_pub_read.c
@@ -254,7 +254,7 @@ int rmc_pub_context_has_pending_send(rmc_pub_context_t* ctx, rmc_index_t s_ind)
     payload_len_t len = 0;
 
     if (!ctx)
-        EINVAL;
+        return EINVAL;
 
     conn = rmc_conn_find_by_index(&ctx->conn_vec, s_ind);
     if (!conn)
diff --git a/rmc_pub_write.c b/rmc_pub_write.c
index d30eb0b..5bc30cd 100644
--- a/rmc_pub_write.c
+++ b/rmc_pub_write.c
@@ -325,7 +325,7 @@ int rmc_pub_context_get_pending(rmc_pub_context_t* ctx,
     uint32_t queue_size = 0;
 
     if (!ctx)
-        EINVAL;
+        return EINVAL;
 
     if (ack_count)
         *ack_count = 0;
-- 
2.43.0


From c5665230e107a8e8eb8eaece8a9084aa5276bc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:39 +0000
Subject: [PATCH 27/28] fix: re-arming a control connection after a read
 dropped its request for write polling

---
 rmc_sub_read.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rmc_sub_read.c b/rmc_sub_read.c
index 275030e..2def053 100644
--- a/rmc_sub_read.c
+++ b/rmc_sub_read.c
@@ -459,12 +459,13 @@ int rmc_sub_read(rmc_sub_context_t* ctx, rmc_index_t s_ind, uint8_t* op_res)
 rearm:
 
     // Read poll is always active. Callback to re-arm.
+    // We may also be waiting to write pending acks.
     if (ctx->conn_vec.poll_modify) {
         (*ctx->conn_vec.poll_modify)(ctx->user_data,
                                      conn->descriptor,
                                      s_ind,
-                                     RMC_POLLREAD,
-                                     RMC_POLLREAD);
+                                     conn->action,
+                                     conn->action);
     }
     return res;
 }
-- 
2.43.0


From f2d865d66bcd99b4962fc93bfd86146feb0d1d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:00 +0000
Subject: [PATCH 28/28] fix: a full send buffer towards one publisher held back
 acks due to other publishers

---
 rmc_internal.h    |  4 ++++
 rmc_sub_packet.c  |  4 ++--
 rmc_sub_timeout.c | 35 +++++++++++++++++++++++++++--------
 3 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/rmc_internal.h b/rmc_internal.h
index 40191fe..3844a10 100644
--- a/rmc_internal.h
+++ b/rmc_internal.h
@@ -405,6 +405,10 @@ extern int rmc_sub_write_interval_acknowledgement(struct rmc_sub_context* ctx,
 
 
 
+extern int rmc_sub_compare_oldest_unacknowledged_packet(rmc_index_t n_ind,
+                                                       rmc_index_t o_ind,
+                                                       void* user_data);
+
 extern int rmc_sub_packet_interval_acknowledged(struct rmc_sub_context* context,
                                                 rmc_index_t index,
                                                 sub_pid_interval_t* interval);
diff --git a/rmc_sub_packet.c b/rmc_sub_packet.c
index 0087ca4..ea1714b 100644
--- a/rmc_sub_packet.c
+++ b/rmc_sub_packet.c
@@ -13,7 +13,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 
-static int _compare_oldest_unackowledged_packet(rmc_index_t n_ind, rmc_index_t o_ind, void* user_data)
+int rmc_sub_compare_oldest_unacknowledged_packet(rmc_index_t n_ind, rmc_index_t o_ind, void* user_data)
 {
     rmc_sub_context_t* ctx = (rmc_sub_context_t*) user_data;
     usec_timestamp_t n_oldest;
@@ -55,7 +55,7 @@ int rmc_sub_packet_received(rmc_sub_context_t* ctx,
     if (!ack_pending)
         rmc_index_list_insert_sorted_rev(&ctx->pub_ack_list,
                                          index,
-                                         _compare_oldest_unackowledged_packet,
+                                         rmc_sub_compare_oldest_unacknowledged_packet,
                                          ctx);
 
     return 0;
diff --git a/rmc_sub_timeout.c b/rmc_sub_timeout.c
index a63019b..9d3892d 100644
--- a/rmc_sub_timeout.c
+++ b/rmc_sub_timeout.c
@@ -22,6 +22,7 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
 {
     usec_timestamp_t current_ts = rmc_usec_monotonic_timestamp();
     rmc_index_node_t *inode = 0;
+    int result = 0;
 
     if (!ctx)
         return EINVAL;
@@ -48,7 +49,11 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
     //
     while(inode) {
         sub_publisher_t* pub = &ctx->publishers[inode->data];
+        rmc_index_node_t* next = rmc_index_list_next(inode);
+        rmc_index_t index = inode->data;
         sub_pid_interval_t pid_intv;
+        int acked = 0;
+        int res = 0;
 
 
         // If it is not yet time to send acks for this publisher, then
@@ -67,24 +72,38 @@ int rmc_sub_timeout_process(rmc_sub_context_t* ctx)
         // For each publisher that we have a timed out ack  for, we will ack
         // all pending packets in one go.
         while(sub_pid_interval_list_size(&pub->received_interval)) {
-            int res = 0;
-
             pid_intv = sub_pid_interval_list_head(&pub->received_interval)->data;
-            res = rmc_sub_packet_interval_acknowledged(ctx, inode->data, &pid_intv);
+            res = rmc_sub_packet_interval_acknowledged(ctx, index, &pid_intv);
             if (res) {
-                RMC_LOG_INDEX_INFO(inode->data,"Failed to send packet ack: %s", strerror(res));
-                return res;
+                RMC_LOG_INDEX_INFO(index, "Failed to send packet ack: %s", strerror(res));
+                break;
             }
 
             // Only discard the interval once its ack has been queued.
             sub_pid_interval_list_pop_head(&pub->received_interval, &pid_intv);
+            acked = 1;
         }
 
-        rmc_index_list_delete(inode);
-        inode = rmc_index_list_head(&ctx->pub_ack_list);
+        // If some acks could not be sent to this publisher, then
+        // they will have to be sent later on. Other publishers
+        // still need to have their acks sent now.
+        if (res && !result)
+            result = res;
+
+        // Remove publisher, unless nothing has changed for it.
+        if (!res || acked)
+            rmc_index_list_delete(inode);
+
+        // What remains to be acked may not be the oldest anymore.
+        if (res && acked)
+            rmc_index_list_insert_sorted_rev(&ctx->pub_ack_list,
+                                             index,
+                                             rmc_sub_compare_oldest_unacknowledged_packet,
+                                             ctx);
+        inode = next;
     }
 
-    return 0;
+    return result;
 }
 
 
-- 
2.43.0

