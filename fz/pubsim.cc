// pub.c against a model: queue, in-flight packets, awaited acknowledgements (C04-C07, C20)
#include "common.h"
extern "C" {
#include "reliable_multicast.h"
#include "rmc_internal.h"
#include "rmc_pub.h"
#include "rmc_sub.h"
}
using namespace fz;

struct MP { uint64_t pid; void* pl; uint32_t len; uint64_t ud; int64_t ts; pub_packet_t* p; std::set<int> wait; };
static std::map<void*, std::pair<uint32_t, uint64_t>> due;   // payloads that are to be freed now
static std::set<void*> alive;                                // payloads handed in and not freed
static const char* during;
static void pfree(void* p, payload_len_t len, user_data_t ud)
{
    if (!alive.count(p)) { note("C05,C20", "%s: a payload is freed that is not there (any more)", during); return; }
    if (!due.count(p)) { note("C05,C20,C24", "%s: a payload is freed while its packet is still awaited or queued", during); return; }
    if (due[p].first != len) note("C05", "%s: payload freed with length %u, queued with %u", during, (unsigned) len, due[p].first);
    if (due[p].second != ud.u64) note("C05", "%s: payload freed with another user data", during);
    due.erase(p); alive.erase(p); free(p);
}
static pub_context_t ctx;
static std::deque<MP> q, fl;     // q: sending order; fl: in flight
struct Sub { pub_subscriber_t s; bool on; };
static Sub subs[5];
static int64_t now;

static void done(const char* w)
{
    check_pending();
    EXPECT(due.empty(), "C05,C20", "%s: %zu payloads are not freed although no acknowledgement is awaited", w, due.size());
}
static void audit(const char* w)
{
    check_pending();
    // queue
    EXPECT(pub_queue_size(&ctx) == q.size(), "C04", "%s: %u packets queued, expected %zu", w, (unsigned) pub_queue_size(&ctx), q.size());
    pub_packet_t* n = pub_next_queued_packet(&ctx);
    EXPECT((n != 0) == !q.empty(), "C04", "%s: next packet is %p with %zu queued", w, n, q.size());
    pub_packet_node_t* nd = pub_packet_list_tail(&ctx.queued);
    for (auto& m : q) {
        EXPECT(nd, "C04", "%s: queued packets are missing", w);
        pub_packet_t* p = nd->data;
        EXPECT(p->pid == m.pid && p->payload == m.pl && p->payload_len == m.len && p->pkg_user_data.u64 == m.ud && p->parent_node == nd, "C04",
               "%s: queued packet is pid %llu len %u, expected pid %llu len %u", w, (unsigned long long) p->pid, (unsigned) p->payload_len, (unsigned long long) m.pid, m.len);
        m.p = p;
        nd = pub_packet_list_prev(nd);
    }
    // in flight
    EXPECT(pub_get_unacknowledged_packet_count(&ctx) == fl.size(), "C05,C04,C18", "%s: %u packets in flight, expected %zu", w, (unsigned) pub_get_unacknowledged_packet_count(&ctx), fl.size());
    std::map<pub_packet_t*, MP*> byp;
    for (auto& m : fl) byp[m.p] = &m;
    size_t cnt = 0;
    for (nd = pub_packet_list_head(&ctx.inflight); nd; nd = pub_packet_list_next(nd), ++cnt) {
        EXPECT(byp.count(nd->data), "C05", "%s: unknown packet in flight", w);
        MP& m = *byp[nd->data];
        pub_packet_t* p = nd->data;
        EXPECT(p->pid == m.pid && p->payload == m.pl && p->payload_len == m.len && p->send_ts == m.ts, "C04,C05",
               "%s: in-flight packet pid %llu has changed (pid %llu len %u sent %lld, expected sent %lld)", w, (unsigned long long) m.pid, (unsigned long long) p->pid, (unsigned) p->payload_len, (long long) p->send_ts, (long long) m.ts);
        EXPECT(p->ref_count == m.wait.size(), "C05,C20", "%s: packet %llu awaited from %u subscribers, expected %zu", w, (unsigned long long) m.pid, (unsigned) p->ref_count, m.wait.size());
    }
    EXPECT(cnt == fl.size(), "C05", "%s: %zu packets in flight, expected %zu", w, cnt, fl.size());
    // per subscriber
    std::set<pub_subscriber_t*> known;
    for (pub_sub_node_t* s = pub_sub_list_head(&ctx.subscribers); s; s = pub_sub_list_next(s)) {
        EXPECT(known.insert(s->data).second, "C05,C20", "%s: a subscriber is listed twice", w);
    }
    int64_t oldest = -1;
    for (int k = 0; k < 5; ++k) {
        EXPECT(known.count(&subs[k].s) == (subs[k].on ? 1u : 0u), "C20,C05", "%s: subscriber %d is %slisted", w, k, subs[k].on ? "not " : "");
        if (!subs[k].on) continue;
        std::vector<MP*> exp;
        for (auto& m : fl) if (m.wait.count(k)) { exp.push_back(&m); if (oldest == -1 || m.ts < oldest) oldest = m.ts; }
        std::sort(exp.begin(), exp.end(), [](MP* a, MP* b) { return a->pid < b->pid; });
        pub_packet_list_t* l = &subs[k].s.inflight;
        EXPECT(pub_packet_list_size(l) == exp.size(), "C05,C20,C23", "%s: %u packets awaited from subscriber %d, expected %zu", w, (unsigned) pub_packet_list_size(l), k, exp.size());
        std::set<pub_packet_t*> got;
        pub_packet_node_t* x;
        for (x = pub_packet_list_head(l); x; x = pub_packet_list_next(x)) got.insert(x->data);
        for (MP* m : exp) EXPECT(got.count(m->p), "C05,C20", "%s: packet %llu is not awaited from subscriber %d any more", w, (unsigned long long) m->pid, k);
        EXPECT(pub_subscriber_user_data(&subs[k].s).u64 == (uint64_t) k + 100, "C05", "%s: subscriber %d lost its user data", w, k);
        // timed-out packets, for periods around the interesting ones
        int64_t per = chance(70) && !exp.empty() ? now - exp[rnd(exp.size())]->ts + (int64_t) rnd(3) - 1 : (int64_t) rnd(50);
        if (per < 0) per = 0;
        pub_packet_list_t res;
        pub_packet_list_init(&res, 0, 0, 0);
        pub_get_timed_out_packets(&subs[k].s, now, per, &res);
        std::vector<pub_packet_t*> r, e;
        for (x = pub_packet_list_head(&res); x; x = pub_packet_list_next(x)) r.push_back(x->data);
        for (MP* m : exp) if (m->ts + per <= now) e.push_back(m->p);
        EXPECT(r.size() == e.size(), "C06", "%s: %zu packets of subscriber %d are reported overdue, expected %zu (now %lld period %lld)", w, r.size(), k, e.size(), (long long) now, (long long) per);
        EXPECT(r == e, "C06", "%s: overdue packets of subscriber %d are not the expected ones, oldest first", w, k);
        pub_packet_list_empty(&res);
    }
    int64_t t = 12345;
    int rc = pub_get_oldest_unackowledged_packet(&ctx, &t);
    EXPECT(rc == 1 && t == oldest, "C07", "%s: oldest unacknowledged packet sent at %lld, expected %lld", w, (long long) t, (long long) oldest);
    // timed-out subscribers
    int64_t per = oldest != -1 && chance(70) ? now - oldest + (int64_t) rnd(3) - 1 : (int64_t) rnd(50);
    if (per < 0) per = 0;
    pub_sub_list_t res;
    pub_sub_list_init(&res, 0, 0, 0);
    pub_get_timed_out_subscribers(&ctx, now, per, &res);
    std::map<pub_subscriber_t*, int> r;
    for (pub_sub_node_t* s = pub_sub_list_head(&res); s; s = pub_sub_list_next(s)) r[s->data]++;
    for (int k = 0; k < 5; ++k) if (subs[k].on) {
        bool over = false;
        for (auto& m : fl) if (m.wait.count(k) && m.ts + per <= now) over = true;
        int c = r.count(&subs[k].s) ? r[&subs[k].s] : 0;
        EXPECT(c == (over ? 1 : 0), "C06", "%s: subscriber %d is reported %d times as having overdue packets, expected %d (now %lld period %lld)", w, k, c, over, (long long) now, (long long) per);
    }
    pub_sub_list_empty(&res);
}
// subscriber k no longer awaited for the packet
static void release(std::deque<MP>::iterator it, int k)
{
    it->wait.erase(k);
    if (it->wait.empty()) { due[it->pl] = { it->len, it->ud }; fl.erase(it); }
}

void history()
{
    // start over; what the last history left behind is not of interest
    for (void* p : alive) free(p);
    due.clear(); alive.clear(); q.clear(); fl.clear();
    memset((void*) subs, 0xA5, sizeof(subs));
    for (auto& s : subs) s.on = false;
    memset((void*) &ctx, 0xA5, sizeof(ctx));
    now = rnd(1, 1000);
    uint64_t next = 1;
    during = "init";
    pub_init_context(&ctx);
    audit("init");
    int ops = rnd(1, chance(10) ? 200 : 60);
    bool burst = chance(30);
    while (ops--) {
        if (chance(60)) now += rnd(burst ? 2 : 10);
        switch (rnd(14)) {
        case 0: case 1: case 2: case 3: {
            bool data = chance(80);
            uint32_t len = rnd(1, 40);
            void* p = malloc(len);
            memset(p, 1, len);
            alive.insert(p);
            uint64_t ud = rnd();
            during = "queue";
            uint64_t pid = data ? pub_queue_packet(&ctx, p, len, user_data_u64(ud)) : pub_queue_no_acknowledge_packet(&ctx, p, len, user_data_u64(ud));
            log("queue %s len %u -> pid %llu", data ? "data" : "announcement", len, (unsigned long long) pid);
            EXPECT(pid == (data ? next : 0), "C04", "queued packet got id %llu, expected %llu", (unsigned long long) pid, (unsigned long long) (data ? next : 0));
            if (data) ++next;
            MP m{pid, p, len, ud, 0, 0, {}};
            size_t i = 0;
            if (!data) while (i < q.size() && q[i].pid == 0) ++i; else i = q.size();
            q.insert(q.begin() + i, m);
            if (!data) {
                // announcements among themselves: any order will do
                pub_packet_node_t* nd = pub_packet_list_tail(&ctx.queued);
                std::deque<MP> a;
                for (size_t k = 0; k <= i && nd; ++k, nd = pub_packet_list_prev(nd))
                    for (auto& z : q) if (z.pid == 0 && z.pl == nd->data->payload) a.push_back(z);
                if (a.size() == i + 1) for (size_t k = 0; k <= i; ++k) q[k] = a[k];
            }
            audit("queue");
            break;
        }
        case 4: case 5: case 6: {
            int n = chance(20) ? 5 : 1;
            while (n-- && !q.empty()) {
                pub_packet_t* p = pub_next_queued_packet(&ctx);
                MP m = q.front();
                EXPECT(p && p->pid == m.pid && p->payload == m.pl, "C04", "the next packet to send is not the queued packet with the lowest id");
                EXPECT(pub_packet_user_data(p).u64 == m.ud, "C04", "the next packet has another user data");
                q.pop_front();
                m.ts = now; m.p = p;
                log("sent pid %llu at %lld", (unsigned long long) m.pid, (long long) now);
                during = "sent";
                bool any = false;
                for (int k = 0; k < 5; ++k) if (subs[k].on) { m.wait.insert(k); any = true; }
                pub_packet_sent(&ctx, p, now);
                if (m.pid == 0) { check_pending(); EXPECT(alive.count(m.pl), "C05", "sending an announcement frees its payload"); alive.erase(m.pl); free(m.pl); }
                else if (any) fl.push_back(m);
                else {
                    fl.push_back(m);
                    audit("sent");
                    EXPECT(p->ref_count == 0, "C05", "a packet sent without subscribers is awaited");
                    due[m.pl] = { m.len, m.ud };
                    fl.pop_back();
                    during = "discard";
                    log("discard");
                    pub_packet_discard(p, pfree);
                }
                done("sent");
                audit("sent");
            }
            break;
        }
        case 7: case 8: case 9: {
            int k = rnd(5);
            if (!subs[k].on) break;
            uint64_t pid = chance(80) && !fl.empty() ? fl[rnd(fl.size())].pid : rnd(0, next + 3);
            log("ack %d pid %llu", k, (unsigned long long) pid);
            during = "ack";
            for (auto it = fl.begin(); it != fl.end(); ++it) if (it->pid == pid && it->wait.count(k)) { release(it, k); break; }
            pub_packet_ack(&subs[k].s, pid, pfree);
            done("ack");
            audit("ack");
            break;
        }
        case 10: case 11: {
            int k = rnd(5);
            if (subs[k].on) break;
            log("init subscriber %d", k);
            during = "init subscriber";
            pub_init_subscriber(&subs[k].s, &ctx, user_data_u64((uint64_t) k + 100));
            subs[k].on = true;
            audit("init subscriber");
            break;
        }
        case 12: {
            int k = rnd(5);
            if (!subs[k].on || chance(40)) break;
            log("reset subscriber %d", k);
            during = "reset subscriber";
            for (bool again = true; again; ) {
                again = false;
                for (auto it = fl.begin(); it != fl.end(); ++it) if (it->wait.count(k)) { release(it, k); again = true; break; }
            }
            subs[k].on = false;
            pub_reset_subscriber(&subs[k].s, pfree);
            EXPECT(!pub_packet_list_size(&subs[k].s.inflight), "C20", "packets are still awaited from a subscriber that is gone");
            memset((void*) &subs[k].s, 0xA5, sizeof(subs[k].s));
            done("reset subscriber");
            audit("reset subscriber");
            break;
        }
        default: now += rnd(20);
        }
    }
}
