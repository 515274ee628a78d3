// the network the library under test sees: descriptors, byte streams, planned failures
#pragma once
#include "common.h"
#include <sys/socket.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <fcntl.h>
extern "C" {
#include "reliable_multicast.h"
#include "rmc_internal.h"
#include "rmc_pub.h"
#include "rmc_sub.h"
#include "circular_buffer.h"
#include "rmc_protocol.h"
}
namespace net {
using namespace fz;
struct Sock {
    int kind;                       // SOCK_DGRAM, SOCK_STREAM, 100 = listening
    std::deque<uint8_t> in, out;    // not yet read by the library; written by the library
    bool eof = false;
    uint32_t caddr = 0; uint16_t cport = 0;     // connect()ed to
    int so_error = 0;
};
static std::map<int, Sock> fds;
static std::set<int> was;           // closed descriptors
static int64_t now;
// plans
static int socket_err, connect_err, accept_err, setsockopt_err, getsockopt_err, rd_err, wr_err;
static size_t rd_limit, wr_limit;
static uint32_t peer_addr; static uint16_t peer_port;   // of the next accepted connection
static int accepted_fd, connected_fd;                   // last
static int accepts, connects, reads, writes;
// datagrams
typedef std::vector<uint8_t> Bytes;
struct Dgram { Bytes b; uint32_t from; };
static std::deque<Dgram> incoming;
static bool (*on_datagram)(int fd, const Bytes& b, const struct sockaddr_in* to, int* err);   // false: errno = *err

static void reset()
{
    fds.clear(); was.clear(); incoming.clear();
    socket_err = connect_err = accept_err = setsockopt_err = getsockopt_err = rd_err = wr_err = 0;
    rd_limit = wr_limit = 1u << 30;
    accepted_fd = connected_fd = -1;
    accepts = connects = reads = writes = 0;
    on_datagram = 0;
}
static int mkfd(int kind) { int f = 100; while (fds.count(f)) ++f; fds[f].kind = kind; was.erase(f); return f; }
static Sock* get(int fd, const char* w)
{
    auto it = fds.find(fd);
    if (it != fds.end()) return &it->second;
    note("C17,C13,C14,C19", "%s on descriptor %d which is %s", w, fd, was.count(fd) ? "closed" : "not open");
    errno = EBADF;
    return 0;
}
}
using net::fds;
extern "C" {
int mock_clock_gettime(clockid_t, struct timespec* t) { t->tv_sec = net::now / 1000000; t->tv_nsec = net::now % 1000000 * 1000; return 0; }
int mock_socket(int, int type, int)
{
    if (net::socket_err) { errno = net::socket_err; return -1; }
    return net::mkfd(type & 0xf);
}
int mock_connect(int fd, const struct sockaddr* a, socklen_t)
{
    net::Sock* s = net::get(fd, "connect");
    ++net::connects;
    if (!s) return -1;
    const struct sockaddr_in* in = (const struct sockaddr_in*) a;
    s->caddr = ntohl(in->sin_addr.s_addr); s->cport = ntohs(in->sin_port);
    if (net::connect_err) { errno = net::connect_err; if (errno == EINPROGRESS) net::connected_fd = fd; return -1; }
    net::connected_fd = fd;
    return 0;
}
int mock_accept(int fd, struct sockaddr* a, socklen_t* l)
{
    net::Sock* s = net::get(fd, "accept");
    ++net::accepts;
    if (!s) return -1;
    if (net::accept_err) { errno = net::accept_err; return -1; }
    int f = net::mkfd(SOCK_STREAM);
    struct sockaddr_in in;
    memset(&in, 0, sizeof(in));
    in.sin_family = AF_INET; in.sin_addr.s_addr = htonl(net::peer_addr); in.sin_port = htons(net::peer_port);
    if (a && l) { memcpy(a, &in, std::min((size_t) *l, sizeof(in))); *l = sizeof(in); }
    net::accepted_fd = f;
    return f;
}
ssize_t mock_readv(int fd, const struct iovec* v, int n)
{
    net::Sock* s = net::get(fd, "read");
    ++net::reads;
    if (!s) return -1;
    if (net::rd_err) { errno = net::rd_err; return -1; }
    if (s->in.empty()) { if (s->eof) return 0; errno = EAGAIN; return -1; }
    size_t done = 0, lim = net::rd_limit;
    for (int i = 0; i < n; ++i) {
        uint8_t* p = (uint8_t*) v[i].iov_base;
        for (size_t k = 0; k < v[i].iov_len && done < lim && !s->in.empty(); ++k, ++done) { p[k] = s->in.front(); s->in.pop_front(); }
    }
    return done;
}
ssize_t mock_read(int fd, void* b, size_t n) { struct iovec v = { b, n }; return mock_readv(fd, &v, 1); }
ssize_t mock_writev(int fd, const struct iovec* v, int n)
{
    net::Sock* s = net::get(fd, "write");
    ++net::writes;
    if (!s) return -1;
    if (net::wr_err) { errno = net::wr_err; return -1; }
    size_t done = 0, lim = net::wr_limit;
    for (int i = 0; i < n; ++i) {
        const uint8_t* p = (const uint8_t*) v[i].iov_base;
        for (size_t k = 0; k < v[i].iov_len && done < lim; ++k, ++done) s->out.push_back(p[k]);
    }
    return done;
}
ssize_t mock_write(int fd, const void* b, size_t n) { struct iovec v = { (void*) b, n }; return mock_writev(fd, &v, 1); }
ssize_t mock_sendmsg(int fd, const struct msghdr* m, int)
{
    net::Sock* s = net::get(fd, "send");
    if (!s) return -1;
    if (s->kind == SOCK_STREAM) return mock_writev(fd, m->msg_iov, m->msg_iovlen);
    net::Bytes b;
    for (size_t i = 0; i < m->msg_iovlen; ++i) b.insert(b.end(), (uint8_t*) m->msg_iov[i].iov_base, (uint8_t*) m->msg_iov[i].iov_base + m->msg_iov[i].iov_len);
    int err = 0;
    if (net::on_datagram && !net::on_datagram(fd, b, (const struct sockaddr_in*) m->msg_name, &err)) { errno = err; return -1; }
    return b.size();
}
ssize_t mock_sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t l)
{
    struct iovec v = { (void*) b, n };
    struct msghdr m;
    memset(&m, 0, sizeof(m));
    m.msg_name = (void*) a; m.msg_namelen = l; m.msg_iov = &v; m.msg_iovlen = 1;
    return mock_sendmsg(fd, &m, fl);
}
ssize_t mock_recvmsg(int fd, struct msghdr* m, int)
{
    net::Sock* s = net::get(fd, "receive");
    if (!s) return -1;
    if (s->kind == SOCK_STREAM) return mock_readv(fd, m->msg_iov, m->msg_iovlen);
    if (net::rd_err) { errno = net::rd_err; return -1; }
    if (net::incoming.empty()) { errno = EAGAIN; return -1; }
    net::Dgram d = net::incoming.front();
    net::incoming.pop_front();
    size_t done = 0;
    for (size_t i = 0; i < m->msg_iovlen; ++i) {
        size_t n = std::min((size_t) m->msg_iov[i].iov_len, d.b.size() - done);
        memcpy(m->msg_iov[i].iov_base, d.b.data() + done, n);
        done += n;
    }
    if (m->msg_name) {
        struct sockaddr_in in;
        memset(&in, 0, sizeof(in));
        in.sin_family = AF_INET; in.sin_addr.s_addr = htonl(d.from); in.sin_port = htons(4711);
        memcpy(m->msg_name, &in, std::min((size_t) m->msg_namelen, sizeof(in)));
        m->msg_namelen = sizeof(in);
    }
    return done;
}
ssize_t mock_recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* l)
{
    struct iovec v = { b, n };
    struct msghdr m;
    memset(&m, 0, sizeof(m));
    m.msg_name = a; m.msg_namelen = l ? *l : 0; m.msg_iov = &v; m.msg_iovlen = 1;
    ssize_t r = mock_recvmsg(fd, &m, fl);
    if (l) *l = m.msg_namelen;
    return r;
}
int mock_getsockopt(int fd, int lv, int o, void* v, socklen_t* l)
{
    net::Sock* s = net::get(fd, "getsockopt");
    if (!s) return -1;
    if (net::getsockopt_err) { errno = net::getsockopt_err; return -1; }
    if (lv == SOL_SOCKET && o == SO_ERROR && *l >= sizeof(int)) { *(int*) v = s->so_error; *l = sizeof(int); }
    return 0;
}
int mock_setsockopt(int fd, int lv, int, const void*, socklen_t)
{
    net::Sock* s = net::get(fd, "setsockopt");
    if (!s) return -1;
    if (net::setsockopt_err && lv == IPPROTO_TCP) { errno = net::setsockopt_err; return -1; }
    return 0;
}
int mock_fcntl(int fd, int, ...) { return net::get(fd, "fcntl") ? 0 : -1; }
int mock_shutdown(int fd, int) { return net::get(fd, "shutdown") ? 0 : -1; }
int mock_close(int fd)
{
    if (!fds.count(fd)) { fz::note("C17", "close of descriptor %d which is %s", fd, net::was.count(fd) ? "closed already" : "not open"); errno = EBADF; return -1; }
    fds.erase(fd);
    net::was.insert(fd);
    return 0;
}
int mock_bind(int fd, const struct sockaddr*, socklen_t) { return net::get(fd, "bind") ? 0 : -1; }
int mock_listen(int fd, int) { net::Sock* s = net::get(fd, "listen"); if (!s) return -1; s->kind = 100; return 0; }
int mock_getsockname(int fd, struct sockaddr* a, socklen_t* l)
{
    struct sockaddr_in in;
    memset(&in, 0, sizeof(in));
    in.sin_family = AF_INET; in.sin_port = htons(3333);
    memcpy(a, &in, std::min((size_t) *l, sizeof(in)));
    *l = sizeof(in);
    return 0;
}
}
// poll registrations
namespace poll {
using namespace fz;
struct R { int index; int action; };
static std::map<int, R> reg;
static std::map<int, int> adds, removes;    // per descriptor, since the descriptor was opened
static bool writebit_matters = true;
static void add(user_data_t, int fd, rmc_index_t ix, rmc_poll_action_t a)
{
    if (reg.count(fd)) note("C17", "poll_add called twice for descriptor %d", fd);
    if (!fds.count(fd)) note("C17", "poll_add called for descriptor %d which is not open", fd);
    reg[fd] = R{ix, a};
}
static void modify(user_data_t, int fd, rmc_index_t ix, rmc_poll_action_t, rmc_poll_action_t a)
{
    if (!reg.count(fd)) { note("C17,C14", "poll_modify called for descriptor %d which is not polled", fd); return; }
    if (reg[fd].index != ix) note("C17,C14", "poll_modify called for descriptor %d with index %d, added with %d", fd, ix, reg[fd].index);
    reg[fd].action = a;
}
static void remove(user_data_t, int fd, rmc_index_t ix)
{
    if (!reg.count(fd)) { note("C17", "poll_remove called for descriptor %d which is not polled", fd); return; }
    if (reg[fd].index != ix) note("C17", "poll_remove called for descriptor %d with index %d, added with %d", fd, ix, reg[fd].index);
    if (!fds.count(fd) && ix < 100) note("C17", "poll_remove called for descriptor %d after it was closed", fd);
    reg.erase(fd);
}
}
