/* C42 sockets: the system's side checks every address, length and descriptor it is given and answers with any result it may give. */
#define ZV_SOCKET
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <netdb.h>
#include <errno.h>
#include "__fc_builtin.h"
void zv_check(int c);
#define SOCK 7
static struct sockaddr SA; static struct addrinfo AI; static int infos, opens, calls, failat, fam, nblock, bound, connected, nodelay, v6only, listens; static char const *ghost, *gserv; static struct addrinfo gh;
static int fails(void) { return calls++ == failat; }
static int ok(int s) { zv_check(s == SOCK && opens == 1); return s; }
int zv_gai(char const *h, char const *s, struct addrinfo const *hints, struct addrinfo **r) { if (fails()) return 5; ghost = h; gserv = s; gh = *hints; AI.ai_family = fam; AI.ai_socktype = hints->ai_socktype; AI.ai_protocol = 6; AI.ai_addr = &SA; AI.ai_addrlen = fam == AF_INET6 ? 28 : 16; AI.ai_next = 0; *r = &AI; infos++; return 0; }
void zv_fai(struct addrinfo *a) { zv_check(a == &AI && infos == 1); infos--; }
int zv_socket(int f, int t, int p) { zv_check(infos == 1 && f == fam && t == gh.ai_socktype && p == 6); if (fails()) return -1; opens++; return SOCK; }
int zv_close(int s) { ok(s); opens--; return 0; }
int zv_setopt(int s, int l, int o, void const *v, socklen_t n) { ok(s); zv_check(n == 4); if (l == IPPROTO_TCP && o == TCP_NODELAY) nodelay = *(int *)v ? 1 : 0; else if (l == IPPROTO_IPV6) { zv_check(o == IPV6_V6ONLY); v6only = *(int *)v; } return 0; }
static void addr(struct sockaddr const *a, socklen_t n) { zv_check(infos == 1 && a == &SA && n == AI.ai_addrlen); }
int zv_bind(int s, struct sockaddr const *a, socklen_t n) { ok(s); addr(a, n); if (fails()) return -1; bound++; return 0; }
int zv_connect(int s, struct sockaddr const *a, socklen_t n) { ok(s); addr(a, n); if (fails()) return -1; connected++; return 0; }
int zv_fcntl(int s, int c, long v) { ok(s); zv_check(c == F_SETFL || c == F_GETFL); if (c == F_GETFL) return 2; if (fails()) return -1; nblock = (v & O_NONBLOCK) != 0; return 0; }
static int rv; static void *e_addr; static void const *e_buf; static long e_n; static int seen;
int zv_listen(int s, int n) { zv_check(s == SOCK && n == 11); seen++; return rv; }
static void fill(void *a, socklen_t *n) { if (a) { unsigned k; zv_check(a == e_addr && *n == 128); for (k = 0; k < 16; k++) ((char *)a)[k] = k + 1; *n = 16; } }
int zv_accept(int s, struct sockaddr *a, socklen_t *n) { zv_check(s == SOCK); seen++; zv_check(a == (struct sockaddr *)e_addr); if (rv < 0) return -1; fill(a, n); return rv; }
int zv_gsn(int s, struct sockaddr *a, socklen_t *n) { zv_check(s == SOCK); seen++; zv_check(a == (struct sockaddr *)e_addr); if (rv < 0) return -1; fill(a, n); return rv; }
static char *e_h, *e_s; static int e_hn, e_sn;
int zv_gni(struct sockaddr const *a, socklen_t n, char *h, socklen_t hn, char *s, socklen_t sn, int f) { seen++; zv_check(a == (struct sockaddr *)e_addr && n >= 28 && n <= 128 && h == e_h && hn == e_hn && s == e_s && sn == e_sn); return rv; }
long zv_send(int s, void const *b, unsigned long n, int f) { seen++; zv_check(s == SOCK && b == e_buf && n == e_n); return rv; }
long zv_recv(int s, void *b, unsigned long n, int f) { seen++; zv_check(s == SOCK && b == e_buf && n == e_n); return rv; }
long zv_sendto(int s, void const *b, unsigned long n, int f, struct sockaddr const *a, socklen_t l) { seen++; zv_check(s == SOCK && b == e_buf && n == e_n && a == (struct sockaddr *)e_addr && l >= 28 && l <= 128); return rv; }
long zv_recvfrom(int s, void *b, unsigned long n, int f, struct sockaddr *a, socklen_t *l) { seen++; zv_check(s == SOCK && b == e_buf && n == e_n); zv_check(a == (struct sockaddr *)e_addr); if (rv < 0) return -1; fill(a, l); return rv; }
/* descriptor sets */
static int set[4], nset; static void *theset;
static int in(int fd) { int i; for (i = 0; i < nset; i++) if (set[i] == fd) return 1; return 0; }
static void zv_zero(void *p) { theset = p; nset = 0; }
static void zv_set(int fd, void *p) { zv_check(p == theset); zv_check(fd >= 0 && fd < 1024); if (!in(fd)) set[nset++] = fd; }
#undef FD_ZERO
#undef FD_SET
#define FD_ZERO(p) zv_zero(p)
#define FD_SET(f, p) zv_set(f, p)
static int s_n; static struct timeval s_tv;
int zv_select(int n, void *r, void *w, void *e, struct timeval *tv) { seen++; zv_check(r == theset && w == 0 && e == 0 && tv != 0); zv_check(tv->tv_usec >= 0 && tv->tv_usec < 1000000); s_n = n; s_tv = *tv; return rv; }
#define getaddrinfo zv_gai
#define freeaddrinfo zv_fai
#define close zv_close
#define setsockopt zv_setopt
#define bind zv_bind
#define connect zv_connect
#define fcntl zv_fcntl
#define listen zv_listen
#define accept zv_accept
#define getsockname zv_gsn
#define getnameinfo zv_gni
#define send zv_send
#define recv zv_recv
#define sendto zv_sendto
#define recvfrom zv_recvfrom
#define select zv_select
#include "zv.h"
static zpl_socket_addr *A(void) { long f = zv_fail_at; char *p = malloc(sizeof(zpl_socket_addr)); int i; for (i = 0; i < 128; i++) p[i] = 0; return (zpl_socket_addr *)p; }
static void create(int fl) {
    int udp = ZV_PICK(0, 1), mode = ZV_PICK(0, 1), f = ZV_PICK(0, 3), s; fam = ZV_PICK(0, 1) ? AF_INET6 : AF_INET; failat = fl;
    s = zpl_socket_create(udp, mode, f, "host", "serv"); zv_check(infos == 0);
    if (s == SOCK) {
        zv_check(opens == 1); zv_check(gh.ai_family == AF_UNSPEC && gh.ai_socktype == (udp ? SOCK_DGRAM : SOCK_STREAM)); zv_check((gh.ai_flags & AI_PASSIVE) == (mode == ZPL_SOCKET_BIND ? AI_PASSIVE : 0));
        zv_check(bound == (mode == ZPL_SOCKET_BIND)); zv_check(nblock == (f & 1)); zv_check(connected == (mode == ZPL_SOCKET_CONNECT) || ((f & 1) && failat >= 0)); if (!udp) zv_check(nodelay == (f >> 1));
        zpl_socket_close(s);
    } else zv_check(s == -1 && failat >= 0 && failat < calls);
    zv_check(opens == 0);        /* a failed creation keeps nothing open */
    if (failat < 0 || failat >= calls) zv_check(s == SOCK);
    zv_end();
}
//zv: slevel=40000 replace=zpl_memset=zv_memset,zpl_memmove=zv_memmove,socket=zv_socket
void ctx_create(void) { create(-1); }
//zv: slevel=40000 replace=zpl_memset=zv_memset,zpl_memmove=zv_memmove,socket=zv_socket
void ctx_create_fails(void) { create(ZV_PICK(0, 5)); }
static void result(int r) { zv_check(seen == 1); zv_check(rv < 0 ? r < 0 : r == rv); zv_end(); }
static void any(void) { rv = ZV_PICK(-1, 3); opens = 1; e_addr = A(); e_n = ZV_PICK(0, 3) * 5; { char *p = malloc(e_n); e_buf = p; } }
//zv: slevel=40000 args=-eva-no-memexec
void ctx_listen(void) { any(); result(zpl_socket_listen(SOCK, 11)); }
//zv: slevel=40000 args=-eva-no-memexec
void ctx_accept(void) { int nul = ZV_PICK(0, 1), r; zpl_socket_addr *a; any(); a = e_addr; if (nul) a = e_addr = 0; r = zpl_socket_accept(SOCK, a); if (!nul && rv >= 0) zv_check(a->data[0] == 1 && a->data[15] == 16); result(r); }
//zv: slevel=40000 args=-eva-no-memexec
void ctx_get_address(void) { zpl_socket_addr *a; int r; any(); a = e_addr; if (rv > 0) rv = 0; r = zpl_socket_get_address(SOCK, a); if (rv == 0) zv_check(a->data[0] == 1 && a->data[15] == 16); result(r); }
//zv: slevel=40000 args=-eva-no-memexec
void ctx_address_info(void) { char h[9], s[5]; int r; any(); e_h = ZV_PICK(0, 1) ? h : 0; e_hn = e_h ? 9 : 0; e_s = s; e_sn = 5; r = zpl_socket_get_address_info(e_addr, e_h, e_hn, e_s, e_sn); zv_check(seen == 1 && (r == 0) == (rv == 0)); zv_end(); }
//zv: slevel=40000 args=-eva-no-memexec
void ctx_transfer(void) {
    int k = ZV_PICK(0, 3), r; any();
    if (k == 0) r = zpl_socket_send(SOCK, e_buf, e_n); else if (k == 1) r = zpl_socket_receive(SOCK, (char *)e_buf, e_n);
    else if (k == 2) r = zpl_socket_send_to(SOCK, e_addr, e_buf, e_n);
    else { int nul = ZV_PICK(0, 1); zpl_socket_addr *a = e_addr; if (nul) a = e_addr = 0; r = zpl_socket_receive_from(SOCK, a, (char *)e_buf, e_n); if (!nul && rv >= 0) zv_check(a->data[0] == 1 && a->data[15] == 16); }
    result(r);
}
static double dur(int i, long *s, long *u) { static double const D[] = { 0.0, 0.25, 1.0, 1.5, 3600.75, 0.000001 }; static long const S[] = { 0, 0, 1, 1, 3600, 0 }, U[] = { 0, 250000, 0, 500000, 750000, 1 }; *s = S[i]; *u = U[i]; return D[i]; }
//zv: slevel=40000 args=-eva-no-memexec
void ctx_select(void) { static int const Q[] = { -1, 0, 3, 1023, 1024, 5000 }; int i = ZV_PICK(0, 5), r; long s, u; double d = dur(ZV_PICK(0, 5), &s, &u); any(); r = zpl_socket_select(Q[i], d);
    if (Q[i] >= 1024) { zv_check(r < 0); zv_end(); } else { zv_check(s_n == Q[i] + 1 && nset == (Q[i] >= 0) && (Q[i] < 0 || in(Q[i]))); zv_check(s_tv.tv_sec == s && s_tv.tv_usec >= u - 1 && s_tv.tv_usec <= u); result(r); } }
static int const V[][4] = { { 0 }, { 1, -1 }, { 1, 0 }, { 1, 1023 }, { 1, 1024 }, { 2, 9, 3 }, { 2, 3, 9 }, { 2, -1, 5 }, { 2, 5, 5 }, { 3, 4, 1024, 2 }, { 3, 8, 0, 1023 } };
//zv: slevel=40000 args=-eva-no-memexec
void ctx_multi_select(void) {
    int k = ZV_PICK(0, 10), n = V[k][0], i, r, mx = -1, big = 0; long s, u; double d = dur(3, &s, &u); int *v;
    opens = 1; rv = ZV_PICK(-1, 2); v = malloc(n * sizeof(int)); for (i = 0; i < n; i++) { v[i] = V[k][i + 1]; if (v[i] > mx) mx = v[i]; if (v[i] >= 1024) big = 1; }
    r = zpl_socket_multi_select(v, n, d);
    if (big) { zv_check(r < 0); zv_end(); }
    else { zv_check(s_n == mx + 1); for (i = 0; i < n; i++) zv_check(v[i] < 0 || in(v[i])); zv_check(nset == (k == 0 || k == 1 ? 0 : k == 5 || k == 6 ? 2 : k == 10 ? 3 : 1)); zv_check(s_tv.tv_sec == s && s_tv.tv_usec >= u - 1 && s_tv.tv_usec <= u); result(r); }
}
