// the six lists of rmc_list_template.h against sequences (C03)
#include "common.h"
extern "C" {
#include "reliable_multicast.h"
#include "rmc_internal.h"
#include "rmc_pub.h"
#include "rmc_sub.h"
}
using namespace fz;

static std::set<void*> nodes;   // alive
template<class N> static N* t_alloc(void* ud) { N* n = (N*) malloc(sizeof(N)); memset((void*) n, 0xA5, sizeof(N)); nodes.insert(n); return n; }
template<class N> static void t_free(N* n, void* ud) { if (!nodes.erase(n)) note("C03", "node freed twice"); free(n); }

// elements: key*16 + tag; the comparison only looks at the key
static uint64_t key(uint64_t v) { return v >> 4; }
template<class D> struct Conv { static D mk(uint64_t v) { return (D) v; } static uint64_t un(D d) { return (uint64_t) d; } };
template<> struct Conv<sub_pid_interval_t> {
    static sub_pid_interval_t mk(uint64_t v) { sub_pid_interval_t i; memset(&i, 0, sizeof(i)); i.first_pid = v; i.last_pid = v + 1; i.receive_ts = v + 2; return i; }
    static uint64_t un(sub_pid_interval_t d) { return d.last_pid == d.first_pid + 1 && d.receive_ts == d.first_pid + 2 ? d.first_pid : ~0ull; }
};
template<class D> static int cmp(D a, D b, void* ud)
{
    uint64_t x = key(Conv<D>::un(a)), y = key(Conv<D>::un(b));
    return x > y ? 1 : x < y ? -1 : 0;
}
static uint64_t stopkey;
template<class D> static int same(D a, D b, void* ud)
{
    uint64_t x = key(Conv<D>::un(a)), y = key(Conv<D>::un(b));
    if (y == stopkey) return -1;
    return x == y;
}
static std::vector<void*> seen;
static size_t limit;
template<class N> static uint8_t visit(N* n, void* ud) { seen.push_back(n); return seen.size() < limit; }

#define C C03
template<class L, class N, class D> struct Ops {
    void (*init)(L*, void*, N* (*)(void*), void (*)(N*, void*));
    uint32_t (*size)(L*); N* (*head)(L*); N* (*tail)(L*); N* (*prev)(N*); N* (*next)(N*);
    N* (*push_head)(L*, D); N* (*push_head_node)(L*, N*); N* (*push_tail)(L*, D); N* (*push_tail_node)(L*, N*);
    N* (*ins_before_node)(N*, N*); N* (*ins_before)(N*, D); N* (*ins_after_node)(N*, N*); N* (*ins_after)(N*, D);
    N* (*unlink)(N*); void (*del)(N*); void (*empty)(L*);
    int (*pop_head)(L*, D*); N* (*pop_head_node)(L*); int (*pop_tail)(L*, D*); N* (*pop_tail_node)(L*);
    void (*for_each)(L*, uint8_t (*)(N*, void*), void*); void (*for_each_rev)(L*, uint8_t (*)(N*, void*), void*);
    N* (*find)(L*, D, int (*)(D, D, void*), void*); N* (*find_rev)(L*, D, int (*)(D, D, void*), void*);
    N* (*ins)(L*, D, int (*)(D, D, void*), void*); N* (*ins_rev)(L*, D, int (*)(D, D, void*), void*);
    N* (*ins_node)(L*, N*, int (*)(D, D, void*), void*); N* (*ins_node_rev)(L*, N*, int (*)(D, D, void*), void*);
};

template<class L, class N, class D> struct Run {
    Ops<L, N, D> o;
    struct E { N* n; uint64_t v; };
    L l[2];
    std::vector<E> m[2];
    uint64_t tag = 0;

    uint64_t val() { return (rnd(1, 6) << 4) | (tag++ & 15); }
    void audit(const char* w)
    {
        check_pending();
        for (int k = 0; k < 2; ++k) {
            auto& s = m[k];
            EXPECT(o.size(&l[k]) == s.size(), "C03", "%s: list %d has size %u, expected %zu", w, k, o.size(&l[k]), s.size());
            N* n = o.head(&l[k]);
            for (size_t i = 0; i < s.size(); ++i, n = o.next(n)) {
                EXPECT(n, "C03", "%s: list %d ends at %zu going forward, expected %zu elements", w, k, i, s.size());
                EXPECT(n == s[i].n, "C03", "%s: list %d has another element at %zu", w, k, i);
                EXPECT(Conv<D>::un(n->data) == s[i].v, "C03", "%s: list %d element %zu has data %llx, expected %llx", w, k, i,
                       (unsigned long long) Conv<D>::un(n->data), (unsigned long long) s[i].v);
                EXPECT(n->owner == &l[k], "C03", "%s: list %d element %zu does not know its list", w, k, i);
            }
            EXPECT(!n, "C03", "%s: list %d goes on after %zu elements", w, k, s.size());
            n = o.tail(&l[k]);
            for (size_t i = s.size(); i--; n = o.prev(n))
                EXPECT(n == s[i].n, "C03", "%s: list %d backwards differs at %zu", w, k, i);
            EXPECT(!n, "C03", "%s: list %d goes on backwards after %zu elements", w, k, s.size());
        }
    }
    void place(int k, size_t i, N* n, uint64_t v, const char* w)
    {
        EXPECT(n, "C03", "%s returns no element", w);
        m[k].insert(m[k].begin() + i, E{n, v});
    }
    N* mk(uint64_t v) { N* n = t_alloc<N>(0); n->data = Conv<D>::mk(v); return n; }
    void go()
    {
        nodes.clear();
        bool custom = true;
        for (int k = 0; k < 2; ++k) { memset((void*) &l[k], 0xA5, sizeof(L)); o.init(&l[k], 0, custom ? t_alloc<N> : 0, custom ? t_free<N> : 0); }
        int ops = rnd(1, 50);
        audit("init");
        while (ops--) {
            int k = rnd(2);
            auto& s = m[k];
            uint64_t v = val();
            D d = Conv<D>::mk(v);
            switch (rnd(22)) {
            case 0: log("push_head %d %llx", k, (unsigned long long) v); place(k, 0, o.push_head(&l[k], d), v, "push_head"); audit("push_head"); break;
            case 1: log("push_tail %d %llx", k, (unsigned long long) v); place(k, s.size(), o.push_tail(&l[k], d), v, "push_tail"); audit("push_tail"); break;
            case 2: log("push_head_node %d %llx", k, (unsigned long long) v); place(k, 0, o.push_head_node(&l[k], mk(v)), v, "push_head_node"); audit("push_head_node"); break;
            case 3: log("push_tail_node %d %llx", k, (unsigned long long) v); place(k, s.size(), o.push_tail_node(&l[k], mk(v)), v, "push_tail_node"); audit("push_tail_node"); break;
            case 4: case 5: case 6: case 7: {
                if (s.empty()) break;
                size_t i = rnd(s.size());
                int w = rnd(4);
                log("insert %d at %zu mode %d %llx", k, i, w, (unsigned long long) v);
                N* n = w == 0 ? o.ins_before(s[i].n, d) : w == 1 ? o.ins_before_node(s[i].n, mk(v)) : w == 2 ? o.ins_after(s[i].n, d) : o.ins_after_node(s[i].n, mk(v));
                place(k, w < 2 ? i : i + 1, n, v, "insert");
                audit("insert before/after");
                break;
            }
            case 8: case 9: {
                if (s.empty()) break;
                size_t i = rnd(s.size());
                N* n = s[i].n;
                bool un = chance(50);
                log("%s %d at %zu", un ? "unlink" : "delete", k, i);
                if (un) {
                    N* r = o.unlink(n);
                    EXPECT(r == n && nodes.count(n), "C03", "unlink does not return the element");
                    EXPECT(Conv<D>::un(n->data) == s[i].v, "C03", "unlink changed the data");
                    t_free<N>(n, 0);
                } else {
                    o.del(n);
                    check_pending();
                    EXPECT(!nodes.count(n), "C03", "delete does not free the element");
                }
                s.erase(s.begin() + i);
                audit(un ? "unlink" : "delete");
                break;
            }
            case 10: case 11: {
                bool h = chance(50);
                D out = Conv<D>::mk(0x77);
                int r = h ? o.pop_head(&l[k], &out) : o.pop_tail(&l[k], &out);
                log("pop_%s %d -> %d", h ? "head" : "tail", k, r);
                EXPECT((r != 0) == !s.empty(), "C03", "pop returns %d for a list of %zu", r, s.size());
                if (!s.empty()) {
                    E e = h ? s.front() : s.back();
                    EXPECT(Conv<D>::un(out) == e.v, "C03", "pop gives another element's data");
                    EXPECT(!nodes.count(e.n), "C03", "pop does not free the node");
                    if (h) s.erase(s.begin()); else s.pop_back();
                }
                audit("pop");
                break;
            }
            case 12: {
                bool h = chance(50);
                N* n = h ? o.pop_head_node(&l[k]) : o.pop_tail_node(&l[k]);
                log("pop_%s_node %d", h ? "head" : "tail", k);
                EXPECT((n != 0) == !s.empty(), "C03", "pop node of a list of %zu", s.size());
                if (!s.empty()) {
                    E e = h ? s.front() : s.back();
                    EXPECT(n == e.n && nodes.count(n), "C03", "pop gives another node");
                    t_free<N>(n, 0);
                    if (h) s.erase(s.begin()); else s.pop_back();
                }
                audit("pop node");
                break;
            }
            case 13: {
                if (chance(70)) break;
                o.empty(&l[k]);
                log("empty %d", k);
                for (auto& e : s) EXPECT(!nodes.count(e.n), "C03", "empty does not free an element");
                s.clear();
                audit("empty");
                break;
            }
            case 14: case 15: {
                bool rev = chance(50);
                limit = rnd(1, s.size() + 2);
                seen.clear();
                if (rev) o.for_each_rev(&l[k], visit<N>, 0); else o.for_each(&l[k], visit<N>, 0);
                log("for_each%s %d limit %zu", rev ? "_rev" : "", k, limit);
                size_t n = std::min(limit, s.size());
                EXPECT(seen.size() == n, "C03", "for_each visits %zu, expected %zu", seen.size(), n);
                for (size_t i = 0; i < n; ++i) EXPECT(seen[i] == s[rev ? s.size() - 1 - i : i].n, "C03", "for_each visits another element at %zu", i);
                audit("for_each");
                break;
            }
            case 16: case 17: {
                bool rev = chance(50);
                stopkey = chance(50) ? rnd(1, 6) : 99;
                N* r = rev ? o.find_rev(&l[k], d, same<D>, 0) : o.find(&l[k], d, same<D>, 0);
                log("find%s %d %llx stop %llu", rev ? "_rev" : "", k, (unsigned long long) v, (unsigned long long) stopkey);
                N* e = 0;
                for (size_t i = 0; i < s.size(); ++i) {
                    auto& x = s[rev ? s.size() - 1 - i : i];
                    if (key(x.v) == stopkey) break;
                    if (key(x.v) == key(v)) { e = x.n; break; }
                }
                EXPECT(r == e, "C03", "find does not return the first match in its direction");
                audit("find");
                break;
            }
            default: {
                // sorted insert: only meaningful on a sorted list, descending (ascending for rev)
                bool rev = chance(50), node = chance(50);
                bool sorted = true;
                for (size_t i = 1; i < s.size(); ++i)
                    if (rev ? key(s[i - 1].v) > key(s[i].v) : key(s[i - 1].v) < key(s[i].v)) sorted = false;
                if (!sorted) {
                    o.empty(&l[k]); s.clear(); log("empty %d", k);
                }
                log("insert_sorted%s%s %d %llx", node ? "_node" : "", rev ? "_rev" : "", k, (unsigned long long) v);
                N* n = node ? (rev ? o.ins_node_rev(&l[k], mk(v), cmp<D>, 0) : o.ins_node(&l[k], mk(v), cmp<D>, 0))
                            : (rev ? o.ins_rev(&l[k], d, cmp<D>, 0) : o.ins(&l[k], d, cmp<D>, 0));
                size_t i = 0;
                if (rev) { i = s.size(); while (i > 0 && key(s[i - 1].v) > key(v)) --i; }
                else while (i < s.size() && key(s[i].v) > key(v)) ++i;
                place(k, i, n, v, "insert_sorted");
                audit("insert_sorted");
            }
            }
        }
        for (int k = 0; k < 2; ++k) o.empty(&l[k]);
        EXPECT(nodes.empty(), "C03", "%zu nodes are never freed", nodes.size());
    }
};
#define RUN(L, N, D) { static Run<L, N, D> r; r.m[0].clear(); r.m[1].clear(); r.tag = 0; r.o = { L##_init, L##_size, L##_head, L##_tail, L##_prev, L##_next, \
    L##_push_head, L##_push_head_node, L##_push_tail, L##_push_tail_node, L##_insert_before_node, L##_insert_before, L##_insert_after_node, L##_insert_after, \
    L##_unlink, L##_delete, L##_empty, L##_pop_head, L##_pop_head_node, L##_pop_tail, L##_pop_tail_node, L##_for_each, L##_for_each_rev, L##_find_node, \
    L##_find_node_rev, L##_insert_sorted, L##_insert_sorted_rev, L##_insert_sorted_node, L##_insert_sorted_node_rev }; r.go(); }

void history()
{
    switch (rnd(6)) {
    case 0: log("pub_packet_list"); RUN(pub_packet_list, pub_packet_node, pub_packet_t*); break;
    case 1: log("pub_sub_list"); RUN(pub_sub_list, pub_sub_node, pub_subscriber_t*); break;
    case 2: log("packet_id_list"); RUN(packet_id_list, packet_id_node, packet_id_t); break;
    case 3: log("rmc_index_list"); RUN(rmc_index_list, rmc_index_node, rmc_index_t); break;
    case 4: log("sub_packet_list"); RUN(sub_packet_list, sub_packet_node, sub_packet_t*); break;
    default: log("sub_pid_interval_list"); RUN(sub_pid_interval_list, sub_pid_interval_node, sub_pid_interval_t);
    }
}
