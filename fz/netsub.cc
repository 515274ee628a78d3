// a subscriber context against a model: simulated publishers, network failures, time (C07-C17, C21)
#include "mocknet.h"
using namespace fz;
using net::now;
using net::Bytes;

enum { MAXPUB = 3, NPUB = 4, AVAIL = RMC_MAX_PACKET - 1, HDR = 20 };
struct Peer { uint32_t addr; uint16_t port; uint32_t node; uint64_t base; bool anyaddr; };
static Peer peer[NPUB];
struct Pk { uint8_t* pl; Bytes b; };
struct MC {
    bool on, up; int fd; int peer;
    std::deque<uint8_t> wb, rb;
    std::map<uint64_t, Pk> held; uint64_t ready; bool any;
    std::map<uint64_t, int64_t> rec;
};
static rmc_sub_context_t* ctx;
static MC con[MAXPUB];
static int max_pub;
struct RD { int k; uint64_t pid; Pk m; };
static std::deque<RD> ready;
static std::set<void*> alive;           // allocated by the library
static std::map<void*, uint32_t> due;
static std::set<void*> maybe;
static std::vector<std::pair<void*, uint32_t>> allocs;
static const char* during;
static bool with_announce, with_complete, with_ready;

static Bytes content(int p, uint64_t pid, uint32_t len) { Bytes b(len); uint64_t x = pid * 77 + p; for (auto& c : b) c = x = x * 6364136223846793005ull + 1442695040888963407ull, c = x >> 40; return b; }
static void* palloc(payload_len_t len, user_data_t) { void* p = malloc(len ? len : 1); memset(p, 0xEE, len); alive.insert(p); allocs.push_back({p, len}); return p; }
static void pfree(void* p, payload_len_t len, user_data_t)
{
    if (!alive.count(p)) { note("C21", "%s: a payload is freed that is not there (any more)", during); return; }
    if (!due.count(p)) { note("C21", "%s: a payload is freed that is still held or kept", during); return; }
    if (due[p] != len) note("C21", "%s: payload freed with length %u, received with %u", during, (unsigned) len, due[p]);
    due.erase(p); alive.erase(p); free(p);
}
static void done(const char* w) { check_pending(); EXPECT(due.empty(), "C21", "%s: %zu payloads are not freed", w, due.size()); }

struct An { uint32_t ip; uint16_t port; uint32_t node; Bytes b; };
static std::vector<An> anns; static int ann_answer;
static uint8_t announce_cb(rmc_sub_context_t*, uint32_t ip, in_port_t port, rmc_node_id_t node, void* p, payload_len_t len) { anns.push_back(An{ip, port, node, Bytes((uint8_t*) p, (uint8_t*) p + len)}); return ann_answer; }
static std::vector<An> completes;
static void complete_cb(rmc_sub_context_t*, uint32_t ip, in_port_t port, rmc_node_id_t node) { completes.push_back(An{ip, port, node, Bytes()}); }
static int readies;
static void ready_cb(rmc_sub_context_t*) { ++readies; }

static int64_t oldest(const MC& c) { int64_t o = -1; for (auto& r : c.rec) if (o == -1 || r.second < o) o = r.second; return o; }
static int find(uint32_t a, uint16_t p) { for (int k = 0; k < max_pub; ++k) if (con[k].on && peer[con[k].peer].addr == a && peer[con[k].peer].port == p) return k; return -1; }
static void audit(const char* w)
{
    check_pending();
    int act = 0, hi = -1;
    int64_t first = -1;
    for (int k = 0; k < max_pub; ++k) {
        MC& m = con[k];
        rmc_connection_t* c = rmc_conn_find_by_index(&ctx->conn_vec, k);
        EXPECT((c != 0) == m.on, "C17,C16", "%s: there is %sconnection at index %d", w, c ? "a " : "no ", k);
        if (!m.on) {
            EXPECT(circ_buf_in_use(&ctx->conn_vec.connections[k].write_buf) == 0 && circ_buf_in_use(&ctx->conn_vec.connections[k].read_buf) == 0, "C17", "%s: the free slot %d has buffered bytes", w, k);
            continue;
        }
        ++act; hi = k;
        Peer& p = peer[m.peer];
        EXPECT(c->connection_index == k && c->descriptor == m.fd, "C17", "%s: connection %d was disturbed", w, k);
        EXPECT(c->mode == (m.up ? RMC_CONNECTION_MODE_CONNECTED : RMC_CONNECTION_MODE_CONNECTING), "C17,C16", "%s: connection %d is in mode %d", w, k, c->mode);
        EXPECT(c->remote_address == p.addr && c->remote_port == p.port && c->node_id == p.node, "C17,C16", "%s: connection %d goes to %x:%u node %x, announced were %x:%u node %x", w, k, c->remote_address, c->remote_port, c->node_id, p.addr, p.port, p.node);
        EXPECT(fds.count(m.fd) && fds[m.fd].caddr == p.addr && fds[m.fd].cport == p.port, "C16", "%s: connection %d was made to another address than announced", w, k);
        EXPECT(rmc_conn_find_by_address(&ctx->conn_vec, p.addr, p.port) == c, "C17", "%s: connection %d is not found by its address", w, k);
        rmc_connection_t* d = rmc_conn_find_by_node_id(&ctx->conn_vec, p.node);
        EXPECT(d && d->node_id == p.node, "C17", "%s: connection %d is not found by its node id", w, k);
        EXPECT(poll::reg.count(m.fd) && poll::reg[m.fd].index == k, "C17", "%s: connection %d is not polled", w, k);
        int a = poll::reg[m.fd].action;
        if (!m.up) { EXPECT(a & RMC_POLLWRITE, "C16,C17", "%s: write polling of connection %d being set up is off", w, k); continue; }
        uint32_t u = circ_buf_in_use(&c->write_buf);
        EXPECT(u == m.wb.size(), "C12,C14,C11", "%s: %u bytes wait to be sent to publisher %d, expected %zu", w, u, k, m.wb.size());
        EXPECT(circ_buf_in_use(&c->read_buf) == m.rb.size(), "C13", "%s: %u bytes of publisher %d are buffered, expected %zu", w, (unsigned) circ_buf_in_use(&c->read_buf), k, m.rb.size());
        EXPECT(((a & RMC_POLLWRITE) != 0) == !m.wb.empty(), "C14,C12", "%s: write polling of connection %d is %s with %zu bytes to send", w, k, a & RMC_POLLWRITE ? "on" : "off", m.wb.size());
        EXPECT(a & RMC_POLLREAD, "C13,C14", "%s: read polling of connection %d is off", w, k);
        sub_publisher_t* P = &ctx->publishers[k];
        EXPECT(sub_packet_list_size(&P->received_pid) == m.held.size(), "C08,C09", "%s: publisher %d: %u packets held back, expected %zu", w, k, (unsigned) sub_packet_list_size(&P->received_pid), m.held.size());
        sub_pid_interval_node_t* x = sub_pid_interval_list_head(&P->received_interval);
        for (auto it = m.rec.begin(); it != m.rec.end(); ) {
            uint64_t lo = it->first, e = lo;
            for (++it; it != m.rec.end() && it->first == e + 1; ++it) e = it->first;
            EXPECT(x, "C10,C11", "%s: no interval for the received packets %llu to %llu", w, (unsigned long long) lo, (unsigned long long) e);
            EXPECT(x->data.first_pid == lo && x->data.last_pid == e, "C10,C11", "%s: interval is %llu to %llu, expected %llu to %llu", w, (unsigned long long) x->data.first_pid, (unsigned long long) x->data.last_pid, (unsigned long long) lo, (unsigned long long) e);
            x = sub_pid_interval_list_next(x);
        }
        EXPECT(!x, "C10,C11", "%s: there are intervals for packets that were not received by multicast", w);
        int64_t o = oldest(m);
        if (o != -1 && (first == -1 || o < first)) first = o;
        int n = 0;
        for (rmc_index_node_t* i = rmc_index_list_head(&ctx->pub_ack_list); i; i = rmc_index_list_next(i)) if (i->data == k) ++n;
        EXPECT(n == (m.rec.empty() ? 0 : 1), "C11", "%s: publisher %d is scheduled for acknowledgement %d times with %zu packets to acknowledge", w, k, n, m.rec.size());
    }
    int64_t last = 0;
    for (rmc_index_node_t* i = rmc_index_list_head(&ctx->pub_ack_list); i; i = rmc_index_list_next(i)) {
        EXPECT(i->data < max_pub && con[i->data].on, "C11", "%s: a publisher that is gone is scheduled for acknowledgement", w);
        int64_t o = oldest(con[i->data]);
        EXPECT(o >= last, "C11,C07", "%s: publishers are not scheduled in the order of their oldest packet", w);
        last = o;
    }
    int64_t t = 4711;
    int rc = rmc_sub_timeout_get_next(ctx, &t);
    int64_t e = first == -1 ? -1 : first + (int64_t) ctx->ack_timeout;
    EXPECT(rc == 0 && t == e, "C07", "%s: next timeout is %lld, expected %lld", w, (long long) t, (long long) e);
    EXPECT(rmc_sub_get_publisher_count(ctx) == act, "C17", "%s: %d connections reported, expected %d", w, (int) rmc_sub_get_publisher_count(ctx), act);
    rmc_index_t mx = 0;
    rmc_conn_get_max_index_in_use(&ctx->conn_vec, &mx);
    EXPECT(mx == (hi < 0 ? RMC_NIL_INDEX : hi), "C17", "%s: highest index in use is %d, expected %d", w, mx, hi);
    EXPECT(fds.size() == 1u + act, "C17", "%s: %zu descriptors are open with %d connections", w, fds.size(), act);
    EXPECT(poll::reg.size() == 1u + act, "C17", "%s: %zu descriptors are polled with %d connections", w, poll::reg.size(), act);
    // ready packets
    EXPECT((size_t) rmc_sub_get_dispatch_ready_count(ctx) == ready.size(), "C08,C09,C21", "%s: %d packets are ready, expected %zu", w, rmc_sub_get_dispatch_ready_count(ctx), ready.size());
    sub_packet_t* h = rmc_sub_get_next_dispatch_ready(ctx);
    EXPECT((h != 0) == !ready.empty(), "C08,C21", "%s: the next ready packet is %p", w, h);
    sub_packet_node_t* n = sub_packet_list_head(&ctx->dispatch_ready);
    for (auto& r : ready) {
        EXPECT(n, "C08", "%s: ready packets are missing", w);
        EXPECT(n->data->pid == r.pid && n->data->publisher == &ctx->publishers[r.k], "C08,C21", "%s: packet %llu is ready where packet %llu of publisher %d is expected", w, (unsigned long long) n->data->pid, (unsigned long long) r.pid, r.k);
        uint32_t len = rmc_sub_packet_payload_len(n->data);
        EXPECT(len == r.m.b.size(), "C15,C08,C13", "%s: packet %llu has length %u, expected %zu", w, (unsigned long long) r.pid, len, r.m.b.size());
        EXPECT(rmc_sub_packet_payload(n->data) == r.m.pl, "C08,C21,C15", "%s: packet %llu has another payload", w, (unsigned long long) r.pid);
        n = sub_packet_list_next(n);
    }
    if (!ready.empty()) {
        RD& r = ready[rnd(ready.size())];
        EXPECT(std::equal(r.m.b.begin(), r.m.b.end(), r.m.pl), "C15,C13,C08", "%s: the payload of packet %llu has changed on the way", w, (unsigned long long) r.pid);
    }
}
// a packet arrives: model; returns true if something became ready
static bool arrive(int k, uint64_t pid, const Bytes& b, bool mc, size_t& used)
{
    MC& c = con[k];
    if (c.any && (pid <= c.ready || c.held.count(pid))) { log("  packet %llu of %d is a duplicate", (unsigned long long) pid, k); return false; }
    if (c.held.count(pid)) return false;
    // the payload is known once the call is over
    c.held[pid] = Pk{(uint8_t*) (uintptr_t) (1 + used), b};
    ++used;
    if (mc) c.rec[pid] = now;
    log("  packet %llu of %d, %zu bytes, by %s", (unsigned long long) pid, k, b.size(), mc ? "multicast" : "resend");
    bool any = false;
    if (!c.any) { c.any = true; c.ready = pid - 1; }
    while (!c.held.empty() && c.held.begin()->first == c.ready + 1) {
        ready.push_back(RD{k, ++c.ready, c.held.begin()->second});
        c.held.erase(c.held.begin());
        any = true;
    }
    return any;
}
static void fixpk(Pk& p, const char* w)
{
    uintptr_t i = (uintptr_t) p.pl;
    if (i && i < 4096) {
        EXPECT(i - 1 < allocs.size(), "C15,C13,C08", "%s: an accepted packet got no payload memory", w);
        EXPECT(allocs[i - 1].second == p.b.size(), "C15,C13", "%s: %u bytes of payload memory for a payload of %zu bytes", w, allocs[i - 1].second, p.b.size());
        p.pl = (uint8_t*) allocs[i - 1].first;
        EXPECT(std::equal(p.b.begin(), p.b.end(), p.pl), "C15,C13,C08", "%s: a received payload differs from the one sent", w);
    }
}
static void fixup(size_t used, const char* w)
{
    check_pending();
    EXPECT(allocs.size() == used, "C09,C15,C13,C16", "%s: payload memory was asked for %zu times, for %zu new packets", w, allocs.size(), used);
    for (auto& r : ready) fixpk(r.m, w);
    for (auto& c : con) for (auto& h : c.held) fixpk(h.second, w);
    allocs.clear();
}
static void put(Bytes& b, uint64_t v, int n) { for (int i = 0; i < n; ++i) b.push_back(v >> (8 * i)); }
static Bytes packet(int p, uint64_t pid, const Bytes& pl)
{
    Bytes b;
    put(b, pid, 8); put(b, peer[p].node, 4); put(b, pl.size(), 2); put(b, peer[p].anyaddr ? 0 : peer[p].addr, 4); put(b, peer[p].port, 2);
    b.insert(b.end(), pl.begin(), pl.end());
    return b;
}
static uint32_t plen() { return chance(92) ? rnd(60) : chance(50) ? rnd(4000) : (uint32_t) RMC_MAX_PAYLOAD; }
static uint64_t pickpid(int p)
{
    int k = find(peer[p].addr, peer[p].port);
    uint64_t lo = k >= 0 && con[k].any ? con[k].ready : peer[p].base;
    uint64_t x = lo + rnd(chance(60) ? 4 : 12);
    if (chance(15) && x > 3) x -= rnd(3);
    return x ? x : 1;
}
static void gone(int k)
{
    MC& c = con[k];
    for (auto& h : c.held) due[h.second.pl] = h.second.b.size();
    c.held.clear(); c.rec.clear(); c.wb.clear(); c.rb.clear();
    c.on = c.up = c.any = false;
}
static void closed(const char* w, int fd)
{
    check_pending();
    EXPECT(!fds.count(fd), "C17", "%s: the descriptor of the closed connection is still open", w);
    EXPECT(!poll::reg.count(fd), "C17", "%s: the descriptor of the closed connection is still polled", w);
    done(w);
}
static void mread()
{
    int n = chance(70) ? 1 : rnd(2, 4);
    net::incoming.clear();
    anns.clear(); readies = 0; allocs.clear();
    ann_answer = chance(75);
    net::connect_err = chance(50) ? EINPROGRESS : chance(60) ? 0 : ECONNREFUSED;
    net::socket_err = chance(95) ? 0 : EMFILE;
    net::connects = 0; net::connected_fd = -1;
    std::vector<An> eann;
    size_t used = 0;
    bool bad = false;
    int newconn = -1, tries = 0;
    bool rdy = false;
    size_t left = 0;
    during = "multicast read";
    bool fullslots = true;
    for (int k = 0; k < max_pub; ++k) if (!con[k].on) fullslots = false;
    for (int i = 0; i < n; ++i) {
        int p = rnd(NPUB);
        if (chance(60)) for (int k = 0; k < max_pub; ++k) if (con[k].on && chance(50)) p = con[k].peer;
        bool an = find(peer[p].addr, peer[p].port) >= 0 ? chance(8) : chance(70);
        uint64_t pid = an ? 0 : pickpid(p);
        Bytes pl = an ? content(p, rnd(), rnd(30)) : content(p, pid, (peer[p].base + pid) % 97 < 2 ? plen() : rnd(60));
        if (!an) { uint32_t len = (pid * 31 + p) % 89; if (pid % 41 == 3) len = 5000; if (pid % 97 == 5) len = RMC_MAX_PAYLOAD; pl = content(p, pid, len); }
        Bytes b = packet(p, pid, pl);
        bool broken = false;
        if (chance(5)) { broken = true; size_t cut = chance(50) && b.size() > HDR ? rnd(HDR, b.size() - 1) : rnd(1, HDR - 1); if (cut >= b.size()) cut = b.size() - 1; b.resize(cut); }
        else if (chance(5)) for (int z = rnd(1, 9); z--; ) b.push_back(0xDD);
        net::incoming.push_back(net::Dgram{b, peer[p].addr});
        if (bad) { ++left; continue; }
        if (broken) { bad = true; log("  a datagram of %zu bytes, too short", b.size()); continue; }
        int k = find(peer[p].addr, peer[p].port);
        if (k < 0) {
            if (pid) { log("  packet of publisher %d not subscribed to", p); continue; }
            log("  announcement of publisher %d, answer %d", p, ann_answer);
            if (with_announce) eann.push_back(An{peer[p].addr, peer[p].port, peer[p].node, pl});
            if (with_announce && !ann_answer) continue;
            int slot = -1;
            for (int x = max_pub; x--; ) if (!con[x].on) slot = x;
            if (slot < 0 || net::socket_err) continue;
            ++tries;
            if (net::connect_err == ECONNREFUSED) continue;
            // one new connection a read: its slot is to be found afterwards
            if (newconn >= 0) { /* two in one read */ }
            newconn = p;
            con[slot].on = true; con[slot].up = false; con[slot].peer = p; con[slot].fd = -1; con[slot].any = false;
            con[slot].wb.clear(); con[slot].rb.clear(); con[slot].held.clear(); con[slot].rec.clear();
        } else if (!con[k].up) log("  datagram of publisher %d being connected to", p);
        else if (!pid) log("  announcement of publisher %d subscribed to", p);
        else if (arrive(k, pid, pl, true, used)) rdy = true;
    }
    uint8_t r = 0;
    int rc = rmc_sub_read(ctx, RMC_MULTICAST_INDEX, chance(80) ? &r : 0);
    log("multicast read of %d datagrams -> %d", n, rc);
    net::connect_err = net::socket_err = 0;
    check_pending();
    EXPECT(rc == (bad ? EPROTO : 0), "C15", "a multicast read with%s a broken datagram returns %d", bad ? "" : "out", rc);
    EXPECT(net::incoming.size() <= (bad ? left : 0), "C15", "%zu datagrams were not read", net::incoming.size());
    EXPECT(anns.size() == eann.size(), "C16", "the announce callback was made %zu times, expected %zu", anns.size(), eann.size());
    for (size_t i = 0; i < anns.size(); ++i)
        EXPECT(anns[i].ip == eann[i].ip && anns[i].port == eann[i].port && anns[i].node == eann[i].node && anns[i].b == eann[i].b, "C16,C15", "the announce callback was made with %x:%u node %x and %zu bytes, announced were %x:%u node %x and %zu bytes", anns[i].ip, anns[i].port, anns[i].node, anns[i].b.size(), eann[i].ip, eann[i].port, eann[i].node, eann[i].b.size());
    EXPECT(net::connects == tries, "C16", "%d connections were tried, expected %d", net::connects, tries);
    // slots of new connections: any free one will do
    std::vector<MC> fresh;
    for (int k = 0; k < max_pub; ++k) if (con[k].on && con[k].fd == -1) { fresh.push_back(con[k]); con[k].on = false; }
    for (auto& f : fresh) {
        int slot = -1;
        for (int k = 0; k < max_pub; ++k) {
            rmc_connection_t* c = rmc_conn_find_by_index(&ctx->conn_vec, k);
            if (c && !con[k].on && c->remote_address == peer[f.peer].addr && c->remote_port == peer[f.peer].port) { slot = k; break; }
        }
        EXPECT(slot >= 0, "C16,C17", "an accepted announcement does not set up a connection");
        con[slot] = f;
        con[slot].on = true;
        con[slot].fd = ctx->conn_vec.connections[slot].descriptor;
        rmc_connection_t* x = &ctx->conn_vec.connections[slot];
        for (circ_buf_t* b : { &x->write_buf, &x->read_buf }) {
            uint32_t n = chance(50) ? AVAIL - rnd(60) : rnd(AVAIL);
            uint8_t *s1, *s2; uint32_t l1, l2;
            circ_buf_alloc(b, n, &s1, &l1, &s2, &l2);
            circ_buf_free(b, n, 0);
        }
    }
    fixup(used, "multicast read");
    if (with_ready) EXPECT((readies != 0) == rdy, "C08", "the packet ready callback was made %d times, packets %s ready", readies, rdy ? "became" : "did not become");
    done("multicast read");
    audit("multicast read");
}
static void complete(int k)
{
    MC& c = con[k];
    int how = chance(75) ? 0 : rnd(1, 3);
    fds[c.fd].so_error = how == 1 ? ECONNREFUSED : 0;
    net::getsockopt_err = how == 2 ? EINVAL : 0;
    net::setsockopt_err = how == 3 ? EINVAL : 0;
    completes.clear();
    int fd = c.fd;
    uint8_t r = 0;
    during = "completion";
    int rc = rmc_sub_write(ctx, k, chance(80) ? &r : 0);
    log("complete connection %d (failure %d) -> %d", k, how, rc);
    net::getsockopt_err = net::setsockopt_err = 0;
    check_pending();
    if (how) {
        EXPECT(rc != 0, "C17,C16", "a failing connection is completed without error");
        EXPECT(completes.empty(), "C16", "the subscription callback is made for a connection that failed");
        gone(k);
        closed("completion", fd);
    } else {
        EXPECT(rc == 0, "C16,C17", "completing a connection returns %d", rc);
        c.up = true;
        if (with_complete) {
            EXPECT(completes.size() == 1, "C16", "the subscription callback was made %zu times", completes.size());
            EXPECT(completes[0].ip == peer[c.peer].addr && completes[0].port == peer[c.peer].port && completes[0].node == peer[c.peer].node, "C16", "the subscription callback was made for another publisher");
        }
    }
    audit("completion");
}
static void do_read(int k)
{
    MC& c = con[k];
    net::Sock& s = fds[c.fd];
    int fd = c.fd;
    // the publisher sends
    if (chance(75)) {
        int n = chance(70) ? 1 : rnd(2, 4);
        while (n--) {
            if (chance(3)) { s.in.push_back(chance(50) ? 2 : rnd(4, 255)); log("publisher of %d sends garbage", k); break; }
            uint64_t pid = pickpid(c.peer);
            uint32_t len = (pid * 31 + c.peer) % 89; if (pid % 41 == 3) len = 5000; if (pid % 97 == 5) len = RMC_MAX_PAYLOAD;
            Bytes b = packet(c.peer, pid, content(c.peer, pid, len));
            s.in.push_back(1);
            s.in.insert(s.in.end(), b.begin(), b.end());
            log("publisher of %d resends %llu, %u bytes", k, (unsigned long long) pid, len);
        }
    }
    bool fail = false, proto = false, rdy = false;
    size_t room = AVAIL - c.rb.size(), used = 0;
    if (s.in.empty() || !room) {
        if (chance(85)) return;
        if (chance(50)) net::rd_err = ECONNRESET; else s.in.clear(), s.eof = true;
        fail = true;
    }
    net::rd_limit = chance(50) ? 1u << 30 : rnd(1, chance(70) ? 40 : 3000);
    readies = 0; allocs.clear();
    during = "read";
    if (!fail) {
        size_t n = std::min({net::rd_limit, room, s.in.size()});
        c.rb.insert(c.rb.end(), s.in.begin(), s.in.begin() + n);
        log("read %zu bytes from %d", n, k);
        while (!c.rb.empty()) {
            if (c.rb[0] != 1) { proto = true; break; }
            if (c.rb.size() < 1 + HDR) break;
            uint64_t pid = 0;
            for (int i = 0; i < 8; ++i) pid |= (uint64_t) c.rb[1 + i] << (8 * i);
            size_t len = c.rb[13] | c.rb[14] << 8;
            if (c.rb.size() < 1 + HDR + len) break;
            Bytes pl(c.rb.begin() + 1 + HDR, c.rb.begin() + 1 + HDR + len);
            if (arrive(k, pid, pl, false, used)) rdy = true;
            c.rb.erase(c.rb.begin(), c.rb.begin() + 1 + HDR + len);
        }
    } else { log("read from %d fails (%s)", k, net::rd_err ? "reset" : "closed"); gone(k); }
    uint8_t r = 0;
    // held payloads of a connection that is closed by this very read are freed in it
    std::map<uint64_t, Pk> heldnow;
    if (proto) { heldnow = c.held; for (auto& h : c.held) if ((uintptr_t) h.second.pl >= 4096) due[h.second.pl] = h.second.b.size(); }
    bool fresh = false;
    if (proto) for (auto& h : c.held) if ((uintptr_t) h.second.pl < 4096) fresh = true;
    if (fresh) { s.in.clear(); net::rd_limit = 1u << 30; throw Stop(); }     // not modelled
    int rc = rmc_sub_read(ctx, k, chance(80) ? &r : 0);
    net::rd_err = 0;
    check_pending();
    if (fail) EXPECT(rc == 0, "C13", "a disconnect makes a read return %d", rc);
    else if (proto) EXPECT(rc == EPROTO, "C13", "an unknown command byte makes a read return %d", rc);
    else EXPECT(rc == 0 || rc == EAGAIN, "C13", "a read returns %d", rc);
    if (proto) { c.held.clear(); gone(k); }
    fixup(used, "read");
    if (fail || proto) closed("read", fd);
    else EXPECT(fds.count(fd), "C13,C17", "a connection is closed by a read without error");
    if (with_ready && !fail && !proto) EXPECT((readies != 0) == rdy, "C08", "the packet ready callback was made %d times, packets %s ready", readies, rdy ? "became" : "did not become");
    done("read");
    audit("read");
}
static void do_write(int k)
{
    MC& c = con[k];
    net::wr_err = chance(85) ? 0 : chance(50) ? EAGAIN : EPIPE;
    net::wr_limit = chance(50) ? 1u << 30 : rnd(1, chance(50) ? 30 : 5000);
    uint8_t r = 0;
    size_t before = fds[c.fd].out.size();
    int rc = rmc_sub_write(ctx, k, chance(80) ? &r : 0);
    log("write to %d (error %d, limit %zu) -> %d", k, net::wr_err, net::wr_limit, rc);
    check_pending();
    auto& out = fds[c.fd].out;
    size_t n = out.size() - before;
    if (c.wb.empty()) EXPECT(rc == ENODATA && n == 0, "C14", "a write with nothing to send returns %d", rc);
    else if (net::wr_err) EXPECT(rc == net::wr_err && n == 0, "C14", "a failing write returns %d", rc);
    else {
        EXPECT(rc == 0, "C14", "a write returns %d", rc);
        EXPECT(n >= 1 && n <= std::min(c.wb.size(), net::wr_limit), "C14", "%zu bytes were sent, %zu waited", n, c.wb.size());
        if (!std::equal(out.begin() + before, out.end(), c.wb.begin()))
            fail("C14,C12", "bytes sent to publisher %d differ from those waiting", k);
        c.wb.erase(c.wb.begin(), c.wb.begin() + n);
        out.clear();
    }
    net::wr_err = 0;
    audit("write");
}
static void bytes(int k, const char* props, const char* w)
{
    rmc_connection_t* c = rmc_conn_find_by_index(&ctx->conn_vec, k);
    size_t n = con[k].wb.size();
    Bytes b(n + 1);
    uint32_t got = 0;
    if (n) circ_buf_read(&c->write_buf, b.data(), n, &got);
    EXPECT(got == n && std::equal(con[k].wb.begin(), con[k].wb.end(), b.begin()), props, "%s: the bytes waiting for publisher %d are not the expected ones", w, k);
}
static void do_timeout()
{
    bool fails = false;
    for (int k = 0; k < max_pub; ++k) if (con[k].on && con[k].up && !con[k].rec.empty()) {
        MC& c = con[k];
        if (oldest(c) + (int64_t) ctx->ack_timeout > now) continue;
        for (auto it = c.rec.begin(); it != c.rec.end(); ) {
            uint64_t lo = it->first, e = lo;
            auto s = it;
            for (++it; it != c.rec.end() && it->first == e + 1; ++it) e = it->first;
            if (AVAIL - c.wb.size() < 17) { fails = true; log("  ack of %llu to %llu does not fit", (unsigned long long) lo, (unsigned long long) e); break; }
            Bytes b;
            b.push_back(2); put(b, lo, 8); put(b, e, 8);
            c.wb.insert(c.wb.end(), b.begin(), b.end());
            it = c.rec.erase(s, it);
            log("  ack of %llu to %llu to %d", (unsigned long long) lo, (unsigned long long) e, k);
        }
    }
    int rc = rmc_sub_timeout_process(ctx);
    log("timeout processing at %lld -> %d", (long long) now, rc);
    check_pending();
    EXPECT((rc != 0) == fails, "C11", "timeout processing returns %d", rc);
    for (int k = 0; k < max_pub; ++k) if (con[k].on && con[k].up) {
        rmc_connection_t* c = rmc_conn_find_by_index(&ctx->conn_vec, k);
        EXPECT(c && circ_buf_in_use(&c->write_buf) == con[k].wb.size(), "C11,C12", "timeout: %u bytes wait for publisher %d, expected %zu", c ? (unsigned) circ_buf_in_use(&c->write_buf) : 0, k, con[k].wb.size());
        bytes(k, "C11,C12", "timeout");
    }
    audit("timeout");
}
static void control()
{
    int p = rnd(NPUB);
    for (int k = 0; k < max_pub; ++k) if (con[k].on && chance(60)) p = con[k].peer;
    int k = find(peer[p].addr, peer[p].port);
    uint32_t len = chance(85) ? rnd(1, 40) : chance(50) ? rnd(1, 65000) : 65500 - rnd(200);
    if (k >= 0 && con[k].up && chance(15)) { size_t av = AVAIL - con[k].wb.size(); len = av > 40 ? av - 4 + rnd(6) - rnd(25) : 10; if (len > 65535) len = 65535; }
    Bytes pl(len);
    for (auto& x : pl) x = rnd();
    bool byaddr = chance(50);
    int rc = byaddr ? rmc_sub_write_control_message_by_address(ctx, peer[p].addr, peer[p].port, pl.data(), len)
                    : rmc_sub_write_control_message_by_node_id(ctx, peer[p].node, pl.data(), len);
    log("control message of %u bytes to publisher %d -> %d", len, p, rc);
    check_pending();
    if (k < 0 || !con[k].up) EXPECT(rc == ENOTCONN, "C12,C17", "a control message to a publisher not connected to returns %d", rc);
    else {
        MC& c = con[k];
        size_t av = AVAIL - c.wb.size();
        if (rc == 0) {
            EXPECT(3 + len <= av, "C12", "a control message that does not fit is accepted");
            Bytes b;
            b.push_back(3); put(b, len, 2);
            c.wb.insert(c.wb.end(), b.begin(), b.end());
            c.wb.insert(c.wb.end(), pl.begin(), pl.end());
        } else EXPECT(rc == ENOMEM && 3 + len + 1 > av, "C12", "a control message that fits is refused: %d", rc);
        EXPECT(circ_buf_in_use(&ctx->conn_vec.connections[k].write_buf) == c.wb.size(), "C12", "after a control message %u bytes wait, expected %zu", (unsigned) circ_buf_in_use(&ctx->conn_vec.connections[k].write_buf), c.wb.size());
        bytes(k, "C12", "control message");
    }
    audit("control message");
}
static void dispatch()
{
    during = "dispatch";
    if (ready.empty() || chance(8)) {
        static sub_packet_t bogus;
        memset((void*) &bogus, 0, sizeof(bogus));
        int rc = chance(50) ? rmc_sub_packet_dispatched(ctx, &bogus) : rmc_sub_packet_dispatched_keep_payload(ctx, &bogus);
        EXPECT(rc != 0, "C21", "a packet that does not wait for dispatch is reported dispatched without error");
        audit("dispatch of nothing");
        return;
    }
    size_t i = chance(70) ? 0 : rnd(ready.size());
    sub_packet_node_t* n = sub_packet_list_head(&ctx->dispatch_ready);
    for (size_t x = 0; x < i; ++x) n = sub_packet_list_next(n);
    sub_packet_t* q = i ? n->data : rmc_sub_get_next_dispatch_ready(ctx);
    RD r = ready[i];
    EXPECT(q->pid == r.pid && rmc_sub_packet_payload(q) == r.m.pl, "C08,C21", "the next packet is not the expected one");
    EXPECT(std::equal(r.m.b.begin(), r.m.b.end(), r.m.pl), "C15,C13,C08", "the payload of packet %llu has changed on the way", (unsigned long long) r.pid);
    bool keep = chance(40);
    log("packet %llu dispatched%s", (unsigned long long) r.pid, keep ? ", payload kept" : "");
    if (!keep) due[r.m.pl] = r.m.b.size();
    int rc = keep ? rmc_sub_packet_dispatched_keep_payload(ctx, q) : rmc_sub_packet_dispatched(ctx, q);
    EXPECT(rc == 0, "C21", "reporting a packet dispatched returns %d", rc);
    ready.erase(ready.begin() + i);
    done("dispatch");
    if (keep) { EXPECT(alive.count(r.m.pl), "C21", "a kept payload was freed"); alive.erase(r.m.pl); free(r.m.pl); }
    audit("dispatch");
}
void history()
{
    static rmc_sub_context_t* left;
    if (left) { free(left->conn_vec.connections); free(left->publishers); free(left); left = 0; }
    for (void* p : alive) free(p);
    alive.clear(); due.clear(); ready.clear(); allocs.clear();
    net::reset(); poll::reg.clear();
    now = rnd(1, 1000000);
    for (auto& c : con) { c.on = c.up = c.any = false; c.fd = -1; c.wb.clear(); c.rb.clear(); c.held.clear(); c.rec.clear(); }
    for (int i = 0; i < NPUB; ++i) {
        peer[i].addr = i == 3 ? peer[2].addr : 0x0A000001 + rnd(3) * 16 + i; peer[i].port = 1000 + i; peer[i].node = 0x1000 * (i + 1) + rnd(100);
        peer[i].base = chance(60) ? rnd(1, 3) : rnd(1, 1ull << 33); peer[i].anyaddr = chance(40);
    }
    max_pub = rnd(1, MAXPUB);
    char group[] = "239.192.1.1";
    during = "init";
    int rc = rmc_sub_init_context(&ctx, 99, group, 4723, 0, user_data_u32(3), poll::add, poll::modify, poll::remove, max_pub, palloc, pfree);
    EXPECT(rc == 0, "C17", "init fails");
    left = ctx;
    rc = rmc_sub_activate_context(ctx);
    check_pending();
    EXPECT(rc == 0, "C17", "activation fails: %d", rc);
    with_announce = chance(70); with_complete = chance(60); with_ready = chance(60);
    if (with_announce) rmc_sub_set_announce_callback(ctx, announce_cb);
    if (with_complete) rmc_sub_set_subscription_complete_callback(ctx, complete_cb);
    if (with_ready) rmc_sub_set_packet_ready_callback(ctx, ready_cb);
    audit("activation");
    int ops = rnd(1, 80);
    while (ops--) {
        int k = rnd(max_pub);
        if (chance(40)) now += rnd(1, chance(50) ? 1000 : 30000);
        switch (rnd(16)) {
        case 0: case 1: case 2: case 3: case 4: case 5: mread(); break;
        case 6: case 7: case 8: if (con[k].on && !con[k].up) complete(k); else if (con[k].on) do_read(k); break;
        case 9: if (con[k].on && con[k].up) do_read(k); break;
        case 10: if (con[k].on && con[k].up) do_write(k); break;
        case 11: case 12: if (chance(50)) now += ctx->ack_timeout; do_timeout(); break;
        case 13: control(); break;
        case 14: dispatch(); if (chance(30)) dispatch(); break;
        default:
            if (con[k].on && chance(20)) {
                log("close connection %d", k);
                int fd = con[k].fd;
                during = "close";
                gone(k);
                rc = rmc_sub_close_connection(ctx, k);
                EXPECT(rc == 0, "C17", "closing a connection returns %d", rc);
                closed("close", fd);
                audit("close");
            }
        }
    }
    log("deactivate");
    during = "deactivate";
    for (auto& r : ready) due[r.m.pl] = r.m.b.size();
    ready.clear();
    for (int k = 0; k < max_pub; ++k) if (con[k].on) gone(k);
    rc = rmc_sub_deactivate_context(ctx);
    done("deactivate");
    EXPECT(rc == 0, "C17", "deactivation returns %d", rc);
    EXPECT(alive.empty(), "C21", "after deactivation %zu payloads are not freed", alive.size());
    EXPECT(fds.empty() && poll::reg.empty(), "C17", "after deactivation %zu descriptors are open and %zu polled", fds.size(), poll::reg.size());
    EXPECT(rmc_sub_get_dispatch_ready_count(ctx) == 0, "C21", "after deactivation packets are ready");
}
