// a publisher context against a model: simulated subscribers, network failures, time (C04-C07, C11-C14, C17-C20, C22-C24)
#include "mocknet.h"
using namespace fz;
using net::now;
using net::Bytes;

enum { MAXSUB = 3, AVAIL = RMC_MAX_PACKET - 1, HDR = 20 };
static const uint32_t GROUP = 0xEFC00101, LISTEN = 0x0A010203;
static const uint16_t MPORT = 4723, LPORT = 4724;
struct MP { uint64_t pid; uint8_t* pl; uint32_t len; Bytes copy; bool check; int64_t ts; pub_packet_t* p; std::set<int> wait; };
struct MC { bool on; int fd; uint32_t addr; uint16_t port; std::deque<uint8_t> wb, rb; };
static rmc_pub_context_t* ctx;
static MC con[MAXSUB];
static std::deque<MP> q, fl;
static uint64_t nextpid, nodeid;
static std::map<void*, uint32_t> due;
static std::set<void*> alive;
static const char* during;
static uint32_t sthr, rthr;
static bool suspended;
static uint32_t a_int; static int64_t a_next;
static int max_sub;
static uint32_t listen_ip;

static std::string hex(const Bytes& b, size_t n = 24) { std::string s; char t[4]; for (size_t i = 0; i < b.size() && i < n; ++i) { snprintf(t, 4, "%02x", b[i]); s += t; } return s; }
static void pfree(void* p, payload_len_t len, user_data_t)
{
    if (!alive.count(p)) { note("C05,C20,C24", "%s: a payload is freed that is not there (any more)", during); return; }
    if (!due.count(p)) { note("C05,C20,C24,C06", "%s: a payload is freed while its packet is still awaited or queued", during); return; }
    if (due[p] != len) note("C05", "%s: payload freed with length %u, queued with %u", during, (unsigned) len, due[p]);
    due.erase(p); alive.erase(p); free(p);
}
static Bytes header(const MP& m)
{
    packet_header_t h;
    memset(&h, 0, sizeof(h));
    h.pid = m.pid; h.node_id = nodeid; h.payload_len = m.len; h.listen_ip = listen_ip; h.listen_port = LPORT;
    // written out by hand: the layout is the protocol's
    Bytes b;
    for (int i = 0; i < 8; ++i) b.push_back(m.pid >> (8 * i));
    for (int i = 0; i < 4; ++i) b.push_back(nodeid >> (8 * i));
    for (int i = 0; i < 2; ++i) b.push_back(m.len >> (8 * i));
    for (int i = 0; i < 4; ++i) b.push_back(listen_ip >> (8 * i));
    for (int i = 0; i < 2; ++i) b.push_back(LPORT >> (8 * i));
    return b;
}
static void release(std::deque<MP>::iterator it, int k)
{
    it->wait.erase(k);
    if (it->wait.empty()) { due[it->pl] = it->len; fl.erase(it); }
}
static bool ack(int k, uint64_t pid)
{
    for (auto it = fl.begin(); it != fl.end(); ++it) if (it->pid == pid && it->wait.count(k)) { release(it, k); return true; }
    return false;
}
// ---- datagrams
static int dg_ok, dg_err;     // successes before the next failure
static int dgrams;
static bool datagram(int fd, const Bytes& b, const struct sockaddr_in* to, int* err)
{
    if (dg_ok-- <= 0) { *err = dg_err; return false; }
    ++dgrams;
    if (!to || to->sin_family != AF_INET || ntohl(to->sin_addr.s_addr) != GROUP || ntohs(to->sin_port) != MPORT) note("C19", "a datagram is not addressed to the configured group and port");
    if (q.empty()) { note("C04,C19", "a datagram is sent although nothing is queued"); return true; }
    MP m = q.front();
    Bytes h = header(m);
    uint64_t gpid = 0;
    if (b.size() >= 8) memcpy(&gpid, b.data(), 8);
    if (gpid != m.pid) note("C04,C19", "packet %llu is multicast where packet %llu is next", (unsigned long long) gpid, (unsigned long long) m.pid);
    if (b.size() != HDR + m.len) note("C19", "packet %llu goes out in a datagram of %zu bytes, expected %u", (unsigned long long) m.pid, b.size(), HDR + m.len);
    else {
        if (!std::equal(h.begin(), h.end(), b.begin())) note("C19", "packet %llu goes out with header %s, expected %s", (unsigned long long) m.pid, hex(Bytes(b.begin(), b.begin() + HDR)).c_str(), hex(h).c_str());
        if (m.check && !std::equal(m.copy.begin(), m.copy.end(), b.begin() + HDR)) note(m.pid ? "C19,C04" : "C19,C22", "packet %llu goes out with another payload", (unsigned long long) m.pid);
    }
    q.pop_front();
    m.ts = now;
    m.p = pub_next_queued_packet(&ctx->pub_ctx);
    for (int k = 0; k < MAXSUB; ++k) if (con[k].on) m.wait.insert(k);
    log("  multicast pid %llu len %u", (unsigned long long) m.pid, m.len);
    if (!m.pid) return true;
    if (m.wait.empty()) due[m.pl] = m.len; else fl.push_back(m);
    return true;
}
// ---- callbacks
static int connects_seen, connect_answer; static uint32_t cb_addr; static uint16_t cb_port;
static uint8_t connect_cb(rmc_pub_context_t* c, uint32_t ip, in_port_t port) { ++connects_seen; cb_addr = ip; cb_port = port; return connect_answer; }
static std::vector<std::pair<uint32_t, uint16_t>> disc;
static void disconnect_cb(rmc_pub_context_t* c, uint32_t ip, in_port_t port) { disc.push_back({ip, port}); }
struct CM { uint32_t addr; uint16_t port; Bytes b; };
static std::vector<CM> ctl;
static void control_cb(rmc_pub_context_t* c, uint32_t a, uint16_t p, rmc_node_id_t, void* pl, payload_len_t len) { ctl.push_back(CM{a, p, Bytes((uint8_t*) pl, (uint8_t*) pl + len)}); }
static int ann_calls, ann_answer; static Bytes ann_payload;
static uint8_t announce_cb(rmc_pub_context_t* c, void* p, payload_len_t max, payload_len_t* len)
{
    ++ann_calls;
    if (max < ann_payload.size()) note("C22", "the announce callback is given room for %u bytes only", (unsigned) max);
    if (max > RMC_MAX_PAYLOAD) note("C22,C19", "the announce callback is given room for %u bytes, more than a packet takes", (unsigned) max);
    else if (!ann_payload.empty()) memcpy(p, ann_payload.data(), ann_payload.size());
    *len = ann_payload.size();
    return ann_answer;
}
static bool with_connect, with_disconnect, with_control, with_announce;

static void done(const char* w)
{
    check_pending();
    EXPECT(due.empty(), "C05,C20,C24", "%s: %zu payloads are not freed although no acknowledgement is awaited", w, due.size());
}
static int64_t oldest()
{
    int64_t o = -1;
    for (auto& m : fl) if (o == -1 || m.ts < o) o = m.ts;
    return o;
}
static void audit(const char* w)
{
    check_pending();
    uint32_t waiting = 0, bytes = 0;
    int act = 0, hi = -1;
    for (int k = 0; k < max_sub; ++k) {
        rmc_connection_t* c = rmc_conn_find_by_index(&ctx->conn_vec, k);
        EXPECT((c != 0) == con[k].on, "C17,C20", "%s: there is %sconnection at index %d", w, c ? "a " : "no ", k);
        if (!con[k].on) {
            EXPECT(circ_buf_in_use(&ctx->conn_vec.connections[k].write_buf) == 0 && circ_buf_in_use(&ctx->conn_vec.connections[k].read_buf) == 0, "C17", "%s: the free slot %d has buffered bytes", w, k);
            continue;
        }
        ++act; hi = k;
        EXPECT(c->connection_index == k && c->descriptor == con[k].fd && c->mode == RMC_CONNECTION_MODE_CONNECTED, "C17", "%s: connection %d was disturbed", w, k);
        EXPECT(c->remote_address == con[k].addr && c->remote_port == con[k].port, "C17", "%s: connection %d has another remote address", w, k);
        rmc_connection_t* d = rmc_conn_find_by_address(&ctx->conn_vec, con[k].addr, con[k].port);
        EXPECT(d && d->remote_address == con[k].addr && d->remote_port == con[k].port && d->mode == RMC_CONNECTION_MODE_CONNECTED, "C17", "%s: connection %d is not found by its address", w, k);
        uint32_t n = 0;
        for (auto& m : fl) if (m.wait.count(k)) ++n;
        uint32_t g = pub_packet_list_size(&ctx->subscribers[k].inflight);
        EXPECT(g == n, "C05,C06,C20,C24", "%s: %u packets are awaited from subscriber %d, expected %u", w, g, k, n);
        uint32_t u = circ_buf_in_use(&c->write_buf);
        EXPECT(u == con[k].wb.size(), "C12,C14,C06", "%s: %u bytes wait to be sent to subscriber %d, expected %zu", w, u, k, con[k].wb.size());
        EXPECT(circ_buf_in_use(&c->read_buf) == con[k].rb.size(), "C13", "%s: %u bytes of subscriber %d are buffered, expected %zu", w, (unsigned) circ_buf_in_use(&c->read_buf), k, con[k].rb.size());
        waiting += n; bytes += u;
        EXPECT(poll::reg.count(con[k].fd) && poll::reg[con[k].fd].index == k, "C17", "%s: connection %d is not polled", w, k);
        int a = poll::reg[con[k].fd].action;
        EXPECT(((a & RMC_POLLWRITE) != 0) == !con[k].wb.empty(), "C14,C12", "%s: write polling of connection %d is %s with %zu bytes to send", w, k, a & RMC_POLLWRITE ? "on" : "off", con[k].wb.size());
        EXPECT(a & RMC_POLLREAD, "C13,C14", "%s: read polling of connection %d is off", w, k);
        payload_len_t pl = 0;
        rmc_conn_get_pending_send_length(c, &pl);
        EXPECT(pl == u, "C23", "%s: %u bytes reported as waiting for subscriber %d, there are %u", w, (unsigned) pl, k, u);
    }
    uint32_t a = 77, b = 77, c = 77;
    int rc = rmc_pub_context_get_pending(ctx, &a, &b, &c);
    EXPECT(a == q.size() && b == bytes && c == waiting, "C23", "%s: pending are reported %u packets %u bytes %u acknowledgements, expected %zu %u %u", w, a, b, c, q.size(), bytes, waiting);
    EXPECT((rc == EBUSY) == (q.size() || bytes || waiting) && (rc == 0 || rc == EBUSY), "C23", "%s: the pending query returns %d with %zu packets %u bytes %u acknowledgements", w, rc, q.size(), bytes, waiting);
    EXPECT(rmc_pub_queue_length(ctx) == q.size(), "C23,C04", "%s: %u packets queued, expected %zu", w, (unsigned) rmc_pub_queue_length(ctx), q.size());
    EXPECT(pub_get_unacknowledged_packet_count(&ctx->pub_ctx) == fl.size(), "C05,C20,C18", "%s: %u packets in flight, expected %zu", w, (unsigned) pub_get_unacknowledged_packet_count(&ctx->pub_ctx), fl.size());
    EXPECT((int) rmc_pub_get_subscriber_count(ctx) == act, "C17", "%s: %d connections reported, expected %d", w, (int) rmc_pub_get_subscriber_count(ctx), act);
    rmc_index_t mx = 0;
    rmc_conn_get_max_index_in_use(&ctx->conn_vec, &mx);
    EXPECT(mx == (hi < 0 ? RMC_NIL_INDEX : hi), "C17", "%s: highest index in use is %d, expected %d", w, mx, hi);
    EXPECT((rmc_pub_traffic_suspended(ctx) == EBUSY) == suspended, "C18", "%s: traffic is %ssuspended with %zu packets in flight (thresholds %u %u)", w, suspended ? "not " : "", fl.size(), sthr, rthr);
    EXPECT(fds.size() == 2u + act, "C17", "%s: %zu descriptors are open with %d connections", w, fds.size(), act);
    EXPECT(poll::reg.size() == 2u + act, "C17", "%s: %zu descriptors are polled with %d connections", w, poll::reg.size(), act);
    // next timeout
    int64_t t = 4711, e = -1, o = oldest();
    if (o != -1) e = o + ctx->resend_timeout;
    if (a_next && (e == -1 || a_next < e)) e = a_next;
    rc = rmc_pub_timeout_get_next(ctx, &t);
    EXPECT(rc == 0 && t == e, "C07,C22", "%s: next timeout is %lld, expected %lld", w, (long long) t, (long long) e);
}
static size_t infl;     // packets in flight before the operation
static void resumed()
{
    if (!suspended) return;
    if (fl.size() <= rthr) { if (fl.size() < infl) suspended = false; else suspended = rmc_pub_traffic_suspended(ctx) == EBUSY; }
}
static void gone(int k)
{
    for (bool again = true; again; ) {
        again = false;
        for (auto it = fl.begin(); it != fl.end(); ++it) if (it->wait.count(k)) { release(it, k); again = true; break; }
    }
    con[k].on = false;
    con[k].wb.clear(); con[k].rb.clear();
}
static void closed(const char* w, int k)
{
    // the model's part was done before the call; the callback and the descriptor
    check_pending();
    if (with_disconnect) {
        EXPECT(disc.size() == 1, "C20", "%s: the disconnect callback was made %zu times", w, disc.size());
        EXPECT(disc[0].first == con[k].addr && disc[0].second == con[k].port, "C20", "%s: the disconnect callback was made for another subscriber", w);
    }
    EXPECT(!fds.count(con[k].fd), "C17,C20", "%s: the descriptor of the closed connection is still open", w);
    EXPECT(!poll::reg.count(con[k].fd), "C17", "%s: the descriptor of the closed connection is still polled", w);
    bool found = false;
    for (pub_sub_node_t* s = pub_sub_list_head(&ctx->pub_ctx.subscribers); s; s = pub_sub_list_next(s)) if (s->data == &ctx->subscribers[k]) found = true;
    EXPECT(!found, "C20", "%s: the subscriber is still known", w);
}
static void queue(uint32_t len, bool ann)
{
    uint8_t* p = (uint8_t*) malloc(len ? len : 1);
    for (uint32_t i = 0; i < len; ++i) p[i] = rnd();
    bool room = len <= RMC_MAX_PAYLOAD;
    int rc = rmc_pub_queue_packet(ctx, p, len, ann);
    log("queue len %u%s -> %d", len, ann ? " announcement" : "", rc);
    check_pending();
    if (!room) { EXPECT(rc == EMSGSIZE, "C19", "a packet of %u bytes is accepted (%d)", len, rc); free(p); audit("queue oversized"); return; }
    if (suspended) { EXPECT(rc == EBUSY, "C18", "a packet is queued (%d) while traffic is suspended", rc); free(p); audit("queue while suspended"); return; }
    EXPECT(rc == 0, "C18,C19", "a packet is refused (%d)", rc);
    alive.insert(p);
    MP m{ann ? 0 : nextpid++, p, len, Bytes(p, p + len), true, 0, 0, {}};
    if (ann) { size_t i = 0; while (i < q.size() && !q[i].pid) ++i; q.insert(q.begin() + i, m); } else q.push_back(m);
    if (sthr && fl.size() >= sthr) suspended = true;
    // write polling is asked for
    EXPECT(poll::reg[ctx->mcast_send_descriptor].action & RMC_POLLWRITE, "C19,C04", "write polling is off for the multicast descriptor although a packet is queued");
    audit("queue");
}
static void mwrite()
{
    dg_ok = chance(75) ? 1000 : rnd(3);
    dg_err = chance(70) ? EAGAIN : ENOBUFS;
    size_t n = q.size();
    bool fails = (size_t) dg_ok < n;
    int ok = dg_ok;
    std::vector<MP> ann;
    for (auto& m : q) if (!m.pid) ann.push_back(m);
    dgrams = 0;
    during = "multicast write";
    uint8_t r = 0;
    log("multicast write, %d datagrams go through", ok);
    int rc = rmc_pub_write(ctx, RMC_MULTICAST_INDEX, chance(80) ? &r : 0);
    check_pending();
    EXPECT(dgrams == (int) (fails ? ok : n), "C19,C04", "%d datagrams were sent, expected %zu", dgrams, fails ? ok : n);
    EXPECT(fails ? rc == dg_err : rc == 0, "C19", "a multicast write returns %d", rc);
    done("multicast write");
    for (auto& m : ann) {
        bool still = false;
        for (auto& x : q) if (x.pl == m.pl) still = true;
        if (!still && alive.count(m.pl)) { alive.erase(m.pl); free(m.pl); }
    }
    bool on = poll::reg[ctx->mcast_send_descriptor].action & RMC_POLLWRITE;
    if (n && dg_err == EAGAIN) EXPECT(on == !q.empty(), "C19,C04", "write polling of the multicast descriptor is %s with %zu packets queued", on ? "on" : "off", q.size());
    audit("multicast write");
}
static void do_accept()
{
    net::peer_addr = rnd(1, 3) << 24 | rnd(1, 250); net::peer_port = rnd(1, 65000);
    for (auto& c : con) if (c.on && c.addr == net::peer_addr && c.port == net::peer_port) return;
    net::accept_err = chance(85) ? 0 : chance(50) ? EAGAIN : ECONNABORTED;
    net::setsockopt_err = chance(90) ? 0 : EINVAL;
    connect_answer = chance(80);
    connects_seen = 0; disc.clear(); net::accepts = 0; net::accepted_fd = -1;
    int used = 0;
    for (int k = 0; k < max_sub; ++k) used += con[k].on;
    during = "accept";
    uint8_t r = 0;
    int rc = rmc_pub_read(ctx, RMC_LISTEN_INDEX, &r);
    int ae = net::accept_err, se = net::setsockopt_err;
    net::accept_err = net::setsockopt_err = 0;
    log("accept from %x:%u (accept error %d, setsockopt error %d, answer %d) -> %d", net::peer_addr, net::peer_port, ae, se, connect_answer, rc);
    check_pending();
    if (used == max_sub) { EXPECT(rc == ENOMEM, "C17", "a connection is accepted (%d) although all slots are taken", rc); audit("accept"); return; }
    if (ae || se) {
        EXPECT(rc == (ae ? ae : se), "C17", "a failing accept returns %d", rc);
        EXPECT(connects_seen == 0, "C17,C16", "the connect callback is made for a connection that failed");
        audit("accept");
        return;
    }
    EXPECT(rc == 0, "C17", "accept fails: %d", rc);
    if (with_connect) {
        EXPECT(connects_seen == 1 && cb_addr == net::peer_addr && cb_port == net::peer_port, "C16,C17", "the connect callback was made %d times, with %x:%u for %x:%u", connects_seen, cb_addr, cb_port, net::peer_addr, net::peer_port);
        if (!connect_answer) {
            EXPECT(!fds.count(net::accepted_fd), "C16,C17", "a refused subscriber is not disconnected");
            if (with_disconnect) EXPECT(disc.size() == 1, "C20", "the disconnect callback was made %zu times for a refused subscriber", disc.size());
            resumed();
            audit("refused subscriber");
            return;
        }
    }
    int slot = -1;
    for (int k = 0; k < max_sub; ++k) {
        rmc_connection_t* c = rmc_conn_find_by_index(&ctx->conn_vec, k);
        if (c && !con[k].on) { EXPECT(slot < 0, "C17", "two slots are taken for one connection"); slot = k; }
    }
    EXPECT(slot >= 0, "C17", "an accepted connection takes no slot");
    MC& c = con[slot];
    c.on = true; c.fd = net::accepted_fd; c.addr = net::peer_addr; c.port = net::peer_port; c.wb.clear(); c.rb.clear();
    audit("accept");
    // have the buffers wrap somewhere
    rmc_connection_t* x = rmc_conn_find_by_index(&ctx->conn_vec, slot);
    for (circ_buf_t* b : { &x->write_buf, &x->read_buf }) {
        uint32_t n = chance(50) ? AVAIL - rnd(60) : rnd(AVAIL);
        uint8_t *s1, *s2; uint32_t l1, l2;
        circ_buf_alloc(b, n, &s1, &l1, &s2, &l2);
        circ_buf_free(b, n, 0);
    }
}
static void put(Bytes& b, uint64_t v, int n) { for (int i = 0; i < n; ++i) b.push_back(v >> (8 * i)); }
static void peer_sends(int k)
{
    Bytes b;
    if (chance(70)) {
        uint64_t a, z;
        b.push_back(2);
        if (chance(60) && !fl.empty()) { a = fl[rnd(fl.size())].pid; z = a + rnd(3); }
        else { a = rnd(0, nextpid + 1); z = chance(50) ? a : rnd(0, nextpid + 2); }
        if (chance(6)) z = chance(50) ? ~0ull : ~0ull - rnd(5);
        if (chance(3)) a = ~0ull - rnd(3);
        put(b, a, 8); put(b, z, 8);
        log("subscriber %d sends ack %llu to %llu", k, (unsigned long long) a, (unsigned long long) z);
    } else if (chance(92)) {
        uint32_t n = chance(95) ? rnd(30) : rnd(AVAIL - 3);
        b.push_back(3); put(b, n, 2);
        for (uint32_t i = 0; i < n; ++i) b.push_back(rnd());
        log("subscriber %d sends control message of %u bytes", k, n);
    } else {
        b.push_back(chance(50) ? 1 : rnd(4, 255));
        log("subscriber %d sends garbage %u", k, b[0]);
    }
    auto& in = fds[con[k].fd].in;
    in.insert(in.end(), b.begin(), b.end());
}
static void do_read(int k)
{
    MC& c = con[k];
    net::Sock& s = fds[c.fd];
    bool fail = false;
    size_t room = AVAIL - c.rb.size();
    if (s.in.empty() || !room) {
        if (chance(85)) return;
        if (chance(50)) net::rd_err = ECONNRESET; else s.in.clear(), s.eof = true;
        fail = true;
    }
    net::rd_limit = chance(50) ? 1u << 30 : rnd(1, chance(70) ? 20 : 3000);
    disc.clear(); ctl.clear();
    std::vector<CM> ectl;
    bool proto = false, any_ack = false, acked = false;
    int fd = c.fd;
    if (!fail) {
        size_t n = std::min({net::rd_limit, room, s.in.size()});
        c.rb.insert(c.rb.end(), s.in.begin(), s.in.begin() + n);
        log("read %zu bytes from %d", n, k);
        for (;;) {
            if (c.rb.empty()) break;
            if (c.rb[0] == 2) {
                if (c.rb.size() < 17) break;
                uint64_t a = 0, z = 0;
                for (int i = 0; i < 8; ++i) { a |= (uint64_t) c.rb[1 + i] << (8 * i); z |= (uint64_t) c.rb[9 + i] << (8 * i); }
                for (uint64_t p = a; p <= z && p < nextpid; ++p) { any_ack = true; if (ack(k, p)) acked = true; }
                c.rb.erase(c.rb.begin(), c.rb.begin() + 17);
            } else if (c.rb[0] == 3) {
                if (c.rb.size() < 3) break;
                size_t len = c.rb[1] | c.rb[2] << 8;
                if (c.rb.size() < 3 + len) break;
                ectl.push_back(CM{c.addr, c.port, Bytes(c.rb.begin() + 3, c.rb.begin() + 3 + len)});
                c.rb.erase(c.rb.begin(), c.rb.begin() + 3 + len);
            } else { proto = true; break; }
        }
        if (proto) gone(k);
    } else { log("read from %d fails (%s)", k, net::rd_err ? "reset" : "closed"); gone(k); }
    during = "read";
    uint8_t r = 0;
    int rc = rmc_pub_read(ctx, k, chance(80) ? &r : 0);
    net::rd_err = 0;
    check_pending();
    if (fail) EXPECT(rc == 0, "C13", "a disconnect makes a read return %d", rc);
    else if (proto) EXPECT(rc == EPROTO, "C13", "an unknown command byte makes a read return %d", rc);
    else EXPECT(rc == 0 || rc == EAGAIN, "C13", "a read returns %d", rc);
    if (with_control) {
        EXPECT(ctl.size() == ectl.size(), "C13", "%zu control messages were delivered, expected %zu", ctl.size(), ectl.size());
        for (size_t i = 0; i < ctl.size(); ++i)
            EXPECT(ctl[i].addr == ectl[i].addr && ctl[i].port == ectl[i].port && ctl[i].b == ectl[i].b, "C13", "control message %zu was delivered as %zu bytes %s, sent %zu bytes %s", i, ctl[i].b.size(), hex(ctl[i].b).c_str(), ectl[i].b.size(), hex(ectl[i].b).c_str());
    }
    done("read");
    if (fail || proto) {
        closed("read", k);
        resumed();
    } else {
        EXPECT(disc.empty() && fds.count(fd), "C13,C17", "a connection is closed by a read without error");
        if (any_ack) resumed();
    }
    audit("read");
}
static void do_write(int k)
{
    MC& c = con[k];
    net::wr_err = chance(85) ? 0 : chance(50) ? EAGAIN : EPIPE;
    net::wr_limit = chance(50) ? 1u << 30 : rnd(1, chance(50) ? 30 : 5000);
    uint8_t r = 0;
    net::writes = 0;
    size_t before = fds[c.fd].out.size();
    int rc = rmc_pub_write(ctx, k, chance(80) ? &r : 0);
    log("write to %d (error %d, limit %zu) -> %d", k, net::wr_err, net::wr_limit, rc);
    check_pending();
    auto& out = fds[c.fd].out;
    size_t n = out.size() - before;
    if (c.wb.empty()) EXPECT(rc == ENODATA && n == 0, "C14", "a write with nothing to send returns %d", rc);
    else if (net::wr_err) EXPECT(rc == net::wr_err && n == 0, "C14", "a failing write returns %d", rc);
    else {
        EXPECT(rc == 0, "C14", "a write returns %d", rc);
        EXPECT(n >= 1 && n <= std::min(c.wb.size(), net::wr_limit), "C14", "%zu bytes were sent, %zu waited", n, c.wb.size());
        if (!std::equal(out.begin() + before, out.end(), c.wb.begin()))
            fail("C14,C12", "bytes sent to subscriber %d differ from those waiting", k);
        c.wb.erase(c.wb.begin(), c.wb.begin() + n);
        out.clear();
    }
    net::wr_err = 0;
    audit("write");
}
static void do_timeout()
{
    during = "timeout";
    bool due_ann = a_int && a_next && a_next <= now;
    ann_calls = 0; ann_answer = chance(80);
    ann_payload.resize(chance(95) ? rnd(40) : (size_t) RMC_MAX_PAYLOAD);
    for (auto& x : ann_payload) x = rnd();
    bool fails = false, acks = false;
    std::vector<std::string> plan;
    if (!due_ann) {
        for (int k = 0; k < max_sub; ++k) if (con[k].on) {
            std::vector<std::pair<uint64_t, MP>> over;
            for (auto& m : fl) if (m.wait.count(k) && m.ts + (int64_t) ctx->resend_timeout <= now) over.push_back({m.pid, m});
            std::sort(over.begin(), over.end(), [](auto& a, auto& b) { return a.first < b.first; });
            for (auto& o : over) {
                if (AVAIL - con[k].wb.size() < 1 + HDR + o.second.len) { fails = true; log("  resend of %llu to %d does not fit", (unsigned long long) o.first, k); break; }
                con[k].wb.push_back(1);
                Bytes h = header(o.second);
                con[k].wb.insert(con[k].wb.end(), h.begin(), h.end());
                con[k].wb.insert(con[k].wb.end(), o.second.copy.begin(), o.second.copy.end());
                ack(k, o.first);
                acks = true;
                log("  resend of %llu to %d", (unsigned long long) o.first, k);
            }
        }
    }
    size_t qn = q.size();
    // known finding: the buffer for announcement payloads is used again while an announcement is still queued
    if (due_ann && with_announce) for (auto& m : q) if (!m.pid && !m.pl) m.check = false;
    int rc = rmc_pub_timeout_process(ctx);
    log("timeout processing at %lld -> %d", (long long) now, rc);
    check_pending();
    if (due_ann) {
        bool expq = (!with_announce || ann_answer) && !suspended;
        EXPECT(rc == 0, "C22", "queueing an announcement makes timeout processing return %d", rc);
        if (with_announce) EXPECT(ann_calls == 1, "C22", "the announce callback was made %d times", ann_calls);
        EXPECT(rmc_pub_queue_length(ctx) == qn + expq, "C22", "%d announcements are queued, expected %d", (int) (rmc_pub_queue_length(ctx) - qn), expq);
        if (expq) {
            MP m{0, 0, (uint32_t) (with_announce ? ann_payload.size() : 0), with_announce ? ann_payload : Bytes(), true, 0, 0, {}};
            size_t i = 0;
            while (i < q.size() && !q[i].pid) ++i;
            q.insert(q.begin() + i, m);
            if (sthr && fl.size() >= sthr) suspended = true;
        }
        a_next = now + a_int;
    } else {
        EXPECT(ann_calls == 0, "C22", "the announce callback is made although no announcement is due");
        EXPECT((rc != 0) == fails, "C06", "timeout processing returns %d", rc);
        if (acks) resumed();
    }
    done("timeout");
    audit("timeout");
    // what is queued is what is sent: look at the bytes
    for (int k = 0; k < max_sub; ++k) if (con[k].on && !con[k].wb.empty()) {
        rmc_connection_t* c = rmc_conn_find_by_index(&ctx->conn_vec, k);
        size_t n = con[k].wb.size();
        Bytes b(n);
        uint32_t got = 0;
        circ_buf_read(&c->write_buf, b.data(), n, &got);
        EXPECT(got == n && std::equal(b.begin(), b.end(), con[k].wb.begin()), "C06,C12", "timeout: the bytes waiting for subscriber %d are not the expected ones", k);
    }
}
static void do_close(int k)
{
    log("close connection %d", k);
    disc.clear();
    during = "close";
    gone(k);
    int rc = rmc_pub_close_connection(ctx, k);
    EXPECT(rc == 0, "C20,C17", "closing a connection returns %d", rc);
    done("close");
    closed("close", k);
    resumed();
    audit("close");
}
void history()
{
    static rmc_pub_context_t* left;
    if (left) { free(left->conn_vec.connections); free(left->subscribers); free(left); left = 0; }
    for (void* p : alive) free(p);
    alive.clear(); due.clear(); q.clear(); fl.clear();
    net::reset(); poll::reg.clear();
    net::on_datagram = datagram;
    now = rnd(1, 1000000);
    nextpid = 1; nodeid = rnd(1, 0xffffffff);
    for (auto& c : con) { c.on = false; c.fd = -1; c.wb.clear(); c.rb.clear(); }
    sthr = rthr = 0; suspended = false; a_int = 0; a_next = 0;
    max_sub = rnd(1, MAXSUB);
    listen_ip = chance(50) ? LISTEN : 0;
    char group[] = "239.192.1.1", lst[] = "10.1.2.3";
    int rc = rmc_pub_init_context(&ctx, nodeid, group, MPORT, 0, listen_ip ? lst : 0, LPORT, user_data_u32(3), poll::add, poll::modify, poll::remove, max_sub, pfree);
    EXPECT(rc == 0, "C17", "init fails");
    left = ctx;
    rc = rmc_pub_activate_context(ctx);
    check_pending();
    EXPECT(rc == 0, "C17", "activation fails: %d", rc);
    with_connect = chance(50); with_disconnect = chance(70); with_control = chance(80); with_announce = chance(70);
    if (with_connect) rmc_pub_set_subscriber_connect_callback(ctx, connect_cb);
    if (with_disconnect) rmc_pub_set_subscriber_disconnect_callback(ctx, disconnect_cb);
    if (with_control) rmc_pub_set_control_message_callback(ctx, control_cb);
    if (with_announce) rmc_pub_set_announce_callback(ctx, announce_cb);
    audit("activation");
    bool big = chance(25), throttle = chance(40), ann = chance(40);
    int ops = rnd(1, 70);
    if (chance(70)) do_accept();
    if (chance(50)) do_accept();
    while (ops--) {
        int k = rnd(max_sub);
        if (chance(40)) now += rnd(1, chance(50) ? 1000 : 60000);
        infl = fl.size();
        switch (rnd(16)) {
        case 0: case 1: case 2: {
            int n = chance(80) ? 1 : rnd(1, 5);
            while (n--) queue(big && chance(50) ? rnd(15000, RMC_MAX_PAYLOAD) : chance(96) ? rnd(50) : chance(50) ? (uint32_t) RMC_MAX_PAYLOAD : RMC_MAX_PAYLOAD + rnd(1, 200), chance(6));
            break;
        }
        case 3: case 4: case 5: mwrite(); break;
        case 6: do_accept(); break;
        case 7: case 8: case 9: case 10:
            if (!con[k].on) break;
            if (chance(70)) peer_sends(k);
            if (chance(80)) do_read(k);
            break;
        case 11: if (con[k].on) do_write(k); break;
        case 12: case 13: if (chance(60)) now += ctx->resend_timeout; do_timeout(); break;
        case 14:
            if (chance(20) && con[k].on) do_close(k);
            if (chance(5) && !con[k].on) { EXPECT(rmc_pub_close_connection(ctx, k) != 0, "C17,C20", "closing a connection that is not there succeeds"); audit("close nothing"); }
            break;
        default:
            if (throttle && !suspended && chance(50)) {
                uint32_t s = rnd(0, 4), r = rnd(0, 4);
                rc = rmc_pub_throttling(ctx, s, r);
                log("throttling %u %u -> %d", s, r, rc);
                if (s < r) EXPECT(rc == EINVAL, "C18", "throttling with suspend threshold %u below resume threshold %u returns %d", s, r, rc);
                else { EXPECT(rc == 0, "C18", "throttling returns %d", rc); sthr = s; rthr = r; }
                EXPECT(ctx->traffic_suspend_threshold == sthr && ctx->traffic_resume_threshold == rthr, "C18", "throttling settings are %u %u, expected %u %u", (unsigned) ctx->traffic_suspend_threshold, (unsigned) ctx->traffic_resume_threshold, sthr, rthr);
                audit("throttling");
            }
            if (ann && chance(50)) {
                uint32_t iv = chance(25) ? 0 : rnd(1, 100000);
                rmc_pub_set_announce_interval(ctx, iv);
                log("announce interval %u", iv);
                if (iv && !a_next) a_next = now + iv;
                if (!iv) a_next = 0;
                a_int = iv;
                audit("announce interval");
            }
        }
    }
    // the end
    log("deactivate");
    disc.clear();
    size_t exp = 0;
    std::vector<int> f;
    for (int k = 0; k < max_sub; ++k) if (con[k].on) { ++exp; f.push_back(con[k].fd); gone(k); }
    during = "deactivate";
    rc = rmc_pub_deactivate_context(ctx);
    check_pending();
    EXPECT(rc == 0, "C17", "deactivation returns %d", rc);
    if (with_disconnect) EXPECT(disc.size() == exp, "C20", "deactivation makes %zu disconnect callbacks for %zu subscribers", disc.size(), exp);
    done("deactivate");
    EXPECT(fds.empty() && poll::reg.empty(), "C17", "after deactivation %zu descriptors are open and %zu polled", fds.size(), poll::reg.size());
    EXPECT(rmc_pub_get_subscriber_count(ctx) == 0, "C17,C20", "after deactivation there are subscribers");
}
