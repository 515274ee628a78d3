// system calls of the library under test are made to the harness
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <signal.h>
#include <netdb.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
extern int mock_clock_gettime(clockid_t, struct timespec*);
extern int mock_socket(int, int, int);
extern int mock_connect(int, const struct sockaddr*, socklen_t);
extern int mock_accept(int, struct sockaddr*, socklen_t*);
extern ssize_t mock_readv(int, const struct iovec*, int);
extern ssize_t mock_writev(int, const struct iovec*, int);
extern ssize_t mock_sendmsg(int, const struct msghdr*, int);
extern ssize_t mock_recvmsg(int, struct msghdr*, int);
extern ssize_t mock_recvfrom(int, void*, size_t, int, struct sockaddr*, socklen_t*);
extern ssize_t mock_sendto(int, const void*, size_t, int, const struct sockaddr*, socklen_t);
extern ssize_t mock_read(int, void*, size_t);
extern ssize_t mock_write(int, const void*, size_t);
extern int mock_getsockopt(int, int, int, void*, socklen_t*);
extern int mock_setsockopt(int, int, int, const void*, socklen_t);
extern int mock_fcntl(int, int, ...);
extern int mock_shutdown(int, int);
extern int mock_close(int);
extern int mock_bind(int, const struct sockaddr*, socklen_t);
extern int mock_listen(int, int);
extern int mock_getsockname(int, struct sockaddr*, socklen_t*);
#define clock_gettime(a, b) mock_clock_gettime((a), (b))
#define socket(a, b, c) mock_socket((a), (b), (c))
#define connect(a, b, c) mock_connect((a), (b), (c))
#define accept(a, b, c) mock_accept((a), (b), (c))
#define accept4(a, b, c, d) mock_accept((a), (b), (c))
#define readv(a, b, c) mock_readv((a), (b), (c))
#define writev(a, b, c) mock_writev((a), (b), (c))
#define sendmsg(a, b, c) mock_sendmsg((a), (b), (c))
#define recvmsg(a, b, c) mock_recvmsg((a), (b), (c))
#define recvfrom(a, b, c, d, e, f) mock_recvfrom((a), (b), (c), (d), (e), (f))
#define sendto(a, b, c, d, e, f) mock_sendto((a), (b), (c), (d), (e), (f))
#define recv(a, b, c, d) mock_recvfrom((a), (b), (c), (d), 0, 0)
#define send(a, b, c, d) mock_sendto((a), (b), (c), (d), 0, 0)
#define read(a, b, c) mock_read((a), (b), (c))
#define write(a, b, c) mock_write((a), (b), (c))
#define getsockopt(a, b, c, d, e) mock_getsockopt((a), (b), (c), (d), (e))
#define setsockopt(a, b, c, d, e) mock_setsockopt((a), (b), (c), (d), (e))
#define fcntl(...) mock_fcntl(__VA_ARGS__)
#define shutdown(a, b) mock_shutdown((a), (b))
#define close(a) mock_close((a))
#define bind(a, b, c) mock_bind((a), (b), (c))
#define listen(a, b) mock_listen((a), (b))
#define getsockname(a, b, c) mock_getsockname((a), (b), (c))
#define signal(a, b) ((void) 0)
