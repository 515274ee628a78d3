// sub.c against a model: in-order delivery, duplicates, acknowledgement intervals, payload ownership (C07-C10, C21)
#include "common.h"
extern "C" {
#include "reliable_multicast.h"
#include "rmc_internal.h"
#include "rmc_pub.h"
#include "rmc_sub.h"
}
using namespace fz;
static int64_t now;
extern "C" int mock_clock_gettime(clockid_t, struct timespec* t) { t->tv_sec = now / 1000000; t->tv_nsec = now % 1000000 * 1000; return 0; }

struct MP { void* pl; uint32_t len; };
static std::set<void*> alive;
static std::map<void*, uint32_t> due;
static void pfree(void* p, payload_len_t len, user_data_t)
{
    if (!alive.count(p)) { note("C21", "a payload is freed twice"); return; }
    if (!due.count(p)) { note("C21", "a payload is freed that is not the publisher's to free"); return; }
    if (due[p] != len) note("C21", "payload freed with length %u, received with %u", (unsigned) len, due[p]);
    due.erase(p); alive.erase(p); free(p);
}
struct Pub {
    sub_publisher_t p;
    std::map<uint64_t, MP> held;
    uint64_t ready;                    // last made ready, valid if any
    bool any;
    std::map<uint64_t, int64_t> rec;   // recorded, not acknowledged
};
static Pub pubs[2];
struct RD { int k; uint64_t pid; MP m; };
static std::deque<RD> ready;
static sub_packet_list_t rl;

static void audit(const char* w)
{
    check_pending();
    EXPECT(sub_packet_list_size(&rl) == ready.size(), "C08", "%s: %u packets are ready, expected %zu", w, (unsigned) sub_packet_list_size(&rl), ready.size());
    sub_packet_node_t* n = sub_packet_list_head(&rl);
    for (auto& r : ready) {
        EXPECT(n, "C08", "%s: ready packets are missing", w);
        sub_packet_t* q = n->data;
        EXPECT(q->publisher == &pubs[r.k].p && q->pid == r.pid, "C08", "%s: packet %llu is ready where packet %llu of publisher %d is expected", w, (unsigned long long) q->pid, (unsigned long long) r.pid, r.k);
        EXPECT(q->payload == r.m.pl && q->payload_len == r.m.len, "C08,C21", "%s: packet %llu has another payload than it arrived with", w, (unsigned long long) r.pid);
        EXPECT(sub_packet_user_data(q).u32 == (uint32_t) r.k + 7, "C08", "%s: packet %llu has another user data", w, (unsigned long long) r.pid);
        n = sub_packet_list_next(n);
    }
    EXPECT(!n, "C08", "%s: too many packets are ready", w);
    for (int k = 0; k < 2; ++k) {
        Pub& P = pubs[k];
        EXPECT(sub_packet_list_size(&P.p.received_pid) == P.held.size(), "C08", "%s: publisher %d: %u packets held back, expected %zu", w, k, (unsigned) sub_packet_list_size(&P.p.received_pid), P.held.size());
        std::map<uint64_t, sub_packet_t*> got;
        for (sub_packet_node_t* x = sub_packet_list_head(&P.p.received_pid); x; x = sub_packet_list_next(x)) got[x->data->pid] = x->data;
        for (auto& h : P.held) {
            EXPECT(got.count(h.first), "C08,C09", "%s: packet %llu is not held back any more", w, (unsigned long long) h.first);
            EXPECT(got[h.first]->payload == h.second.pl && got[h.first]->payload_len == h.second.len, "C08,C21", "%s: held back packet %llu has another payload", w, (unsigned long long) h.first);
        }
        // duplicates
        for (int i = 0; i < 6; ++i) {
            uint64_t pid = rnd(1, 40);
            if (i < 2 && !P.held.empty()) { auto it = P.held.begin(); std::advance(it, rnd(P.held.size())); pid = it->first; }
            if (i == 2 && P.any) pid = P.ready + rnd(3) - 1;
            if (i == 3) pid = rnd();
            bool e = P.any && (pid <= P.ready || P.held.count(pid));
            int r = sub_packet_is_duplicate(&P.p, pid);
            EXPECT((r != 0) == e, "C09", "%s: publisher %d: packet %llu is %srecognised as a duplicate", w, k, (unsigned long long) pid, r ? "wrongly " : "not ");
        }
        // intervals
        sub_pid_interval_node_t* x = sub_pid_interval_list_head(&P.p.received_interval);
        int64_t oldest = 0;
        bool first = true;
        for (auto it = P.rec.begin(); it != P.rec.end(); ) {
            uint64_t a = it->first, b = a;
            int64_t ts = it->second;
            for (++it; it != P.rec.end() && it->first == b + 1; ++it) { b = it->first; ts = std::min(ts, it->second); }
            EXPECT(x, "C10,C11", "%s: no interval for the recorded packets %llu to %llu", w, (unsigned long long) a, (unsigned long long) b);
            EXPECT(x->data.first_pid == a && x->data.last_pid == b, "C10,C11", "%s: interval is %llu to %llu, expected %llu to %llu", w, (unsigned long long) x->data.first_pid, (unsigned long long) x->data.last_pid, (unsigned long long) a, (unsigned long long) b);
            EXPECT(x->data.receive_ts <= ts, "C10,C07,C11", "%s: interval %llu to %llu carries the time %lld, its first packet arrived at %lld", w, (unsigned long long) a, (unsigned long long) b, (long long) x->data.receive_ts, (long long) ts);
            EXPECT(x->data.receive_ts == ts, "C07,C11", "%s: interval %llu to %llu carries the time %lld, its first packet arrived at %lld", w, (unsigned long long) a, (unsigned long long) b, (long long) x->data.receive_ts, (long long) ts);
            if (first || ts < oldest) oldest = ts;
            first = false;
            x = sub_pid_interval_list_next(x);
        }
        EXPECT(!x, "C10", "%s: there are intervals for packets that are not recorded", w);
        int64_t o = sub_oldest_unacknowledged_packet(&P.p);
        EXPECT(o == oldest, "C07,C11", "%s: oldest unacknowledged arrival is %lld, expected %lld", w, (long long) o, (long long) oldest);
    }
}
static void process(int k)
{
    Pub& P = pubs[k];
    log("process %d", k);
    if (!P.any && !P.held.empty()) { P.any = true; P.ready = P.held.begin()->first - 1; }
    while (!P.held.empty() && P.held.begin()->first == P.ready + 1) {
        ready.push_back(RD{k, P.ready + 1, P.held.begin()->second});
        P.held.erase(P.held.begin());
        ++P.ready;
    }
    sub_process_received_packets(&P.p, &rl);
    audit("process");
}
void history()
{
    for (void* p : alive) free(p);
    alive.clear(); due.clear(); ready.clear();
    now = rnd(1, 100000);
    for (int k = 0; k < 2; ++k) {
        memset((void*) &pubs[k].p, 0xA5, sizeof(pubs[k].p));
        pubs[k].held.clear(); pubs[k].rec.clear(); pubs[k].any = false; pubs[k].ready = 0;
        sub_init_publisher(&pubs[k].p);
    }
    sub_packet_list_init(&rl, 0, 0, 0);
    audit("init");
    uint64_t base = chance(70) ? rnd(1, 3) : rnd(1, 1ull << 40);
    int span = chance(50) ? 8 : 25;
    bool eager = chance(60);
    int ops = rnd(1, 60);
    while (ops--) {
        int k = rnd(2);
        Pub& P = pubs[k];
        if (chance(70)) now += rnd(9);
        switch (rnd(10)) {
        case 0: case 1: case 2: case 3: case 4: case 5: {
            uint64_t lo = P.any ? P.ready : base;
            uint64_t pid = lo + rnd(span);
            if (!pid) pid = 1;
            bool dup = P.held.count(pid) || (P.any && pid <= P.ready);
            int r = sub_packet_is_duplicate(&P.p, pid);
            bool e = P.any && dup;
            EXPECT((r != 0) == e, "C09", "packet %llu is %srecognised as a duplicate", (unsigned long long) pid, r ? "wrongly " : "not ");
            if (dup) break;
            bool store = chance(65) && !P.rec.count(pid);
            uint32_t len = rnd(1, 20);
            void* p = malloc(len);
            alive.insert(p);
            log("received %d pid %llu %s at %lld", k, (unsigned long long) pid, store ? "multicast" : "resend", (long long) now);
            sub_packet_received(&P.p, pid, p, len, store, now, user_data_u32((uint32_t) k + 7));
            P.held[pid] = MP{p, len};
            if (store) P.rec[pid] = now;
            audit("received");
            if (eager) process(k);
            break;
        }
        case 6: process(k); break;
        case 7: {
            // acknowledge some
            int n = chance(50) ? 100 : 1;
            sub_pid_interval_t iv;
            while (n-- && sub_pid_interval_list_pop_head(&P.p.received_interval, &iv)) {
                log("acknowledge %d %llu to %llu", k, (unsigned long long) iv.first_pid, (unsigned long long) iv.last_pid);
                P.rec.erase(P.rec.lower_bound(iv.first_pid), P.rec.upper_bound(iv.last_pid));
            }
            audit("acknowledge");
            break;
        }
        case 8: {
            sub_packet_t* q;
            if (ready.empty() || !sub_packet_list_pop_head(&rl, &q)) break;
            alive.erase(ready.front().m.pl);
            free(ready.front().m.pl);
            ready.pop_front();
            audit("dispatched");
            break;
        }
        default: {
            if (chance(75)) break;
            log("reset %d", k);
            for (auto& h : P.held) due[h.second.pl] = h.second.len;
            P.held.clear(); P.rec.clear(); P.any = false;
            sub_reset_publisher(&P.p, pfree);
            check_pending();
            EXPECT(due.empty(), "C21", "reset: %zu payloads are not freed", due.size());
            EXPECT(!sub_pid_interval_list_size(&P.p.received_interval) && !sub_packet_list_size(&P.p.received_pid), "C11,C21", "reset: packets or intervals remain");
            sub_init_publisher(&P.p);
            audit("reset");
        }
        }
    }
}
