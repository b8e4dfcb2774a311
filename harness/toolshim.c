/* Linked (ld --wrap) into every command line tool: what the tool does to its serial line or socket is
   answered by a bus model in the checking process, over a control socket whose number is in TOOLSHIM_FD.
   Nothing here touches a real device or the network; time is virtual. */
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <netdb.h>
#include <termios.h>
#include <poll.h>
#include <sys/select.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

int __real_open(const char *, int, ...);
int __real_close(int);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
ssize_t __real_writev(int, const struct iovec *, int);
ssize_t __real_recv(int, void *, size_t, int);
ssize_t __real_send(int, const void *, size_t, int);
int __real_fcntl(int, int, ...);
int __real_ioctl(int, unsigned long, ...);
int __real_isatty(int);
int __real_poll(struct pollfd *, nfds_t, int);

enum { NONE, SER, SOCK };
static unsigned char kind[1024];
static unsigned char nonblock[1024];
static struct termios vtio;
static long long vus;
static int ctl = -1;

static void all(int wr, void *p, size_t n)
{
    char *c = p;
    while (n) {
        ssize_t k = wr ? __real_write(ctl, c, n) : __real_read(ctl, c, n);
        if (k <= 0) { if (k < 0 && errno == EINTR) continue; _exit(99); }
        c += k; n -= (size_t)k;
    }
}

static int ask(char op, int a, const void *p, size_t n, void *out, size_t *outn)
{
    char rq[9];
    int32_t v[4];
    static unsigned char sink[65536];
    if (ctl < 0) {
        const char *e = getenv("TOOLSHIM_FD");
        if (!e) _exit(98);
        ctl = atoi(e);
    }
    rq[0] = op;
    memcpy(rq + 1, &a, 4);
    int32_t l = (int32_t)n;
    memcpy(rq + 5, &l, 4);
    fflush(stdout);              /* so that the order of output and traffic is the program's */
    all(1, rq, 9);
    if (n) all(1, (void *)p, n);
    all(0, v, 16);
    vus += v[2];
    if (v[3] < 0 || v[3] > (int)sizeof sink) _exit(97);
    if (v[3]) all(0, sink, (size_t)v[3]);
    if (out) {
        if ((size_t)v[3] > *outn) _exit(97);
        memcpy(out, sink, (size_t)v[3]);
        *outn = (size_t)v[3];
    }
    errno = v[1];
    return v[0];
}

static int isv(int fd) { return fd >= 0 && fd < 1024 && kind[fd]; }

static int newfd(int k)
{
    int fd = __real_open("/dev/null", O_RDWR);
    if (fd < 0 || fd >= 1024) _exit(96);
    kind[fd] = (unsigned char)k;
    nonblock[fd] = 0;
    return fd;
}

static int vopen(const char *p, int fl, int mode)
{
    if (!strncmp(p, "/dev/ttyV", 9)) {
        if (ask('O', fl, p, strlen(p), NULL, NULL) < 0) return -1;
        memset(&vtio, 0, sizeof vtio);
        int fd = newfd(SER);
        nonblock[fd] = !!(fl & O_NONBLOCK);
        return fd;
    }
    return __real_open(p, fl, mode);
}
#define MODE int m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
int __wrap_open(const char *p, int fl, ...) { MODE return vopen(p, fl, m); }
int __wrap_open64(const char *p, int fl, ...) { MODE return vopen(p, fl, m); }

int __wrap_close(int fd)
{
    if (!isv(fd)) return __real_close(fd);
    ask('X', fd, NULL, 0, NULL, NULL);
    kind[fd] = NONE;
    return __real_close(fd);
}

static ssize_t vread(int fd, void *b, size_t n, int peek, int dontwait)
{
    unsigned char buf[65536];
    size_t k = sizeof buf;
    int32_t a = (int32_t)(n > 60000 ? 60000 : n) | (peek ? 1 << 29 : 0) | (dontwait || nonblock[fd] ? 1 << 30 : 0);
    int r = ask('R', a, NULL, 0, buf, &k);
    if (r < 0) return -1;
    if (k > n) _exit(97);
    memcpy(b, buf, k);
    return (ssize_t)k;
}
ssize_t __wrap_read(int fd, void *b, size_t n) { return isv(fd) ? vread(fd, b, n, 0, 0) : __real_read(fd, b, n); }
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl) { return isv(fd) ? vread(fd, b, n, fl & MSG_PEEK, fl & MSG_DONTWAIT) : __real_recv(fd, b, n, fl); }
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) { (void)a; (void)l; return __wrap_recv(fd, b, n, fl); }
static ssize_t vwrite(int fd, const void *b, size_t n, int nosig)
{
    (void)fd;
    return ask('W', nosig, b, n > 60000 ? 60000 : n, NULL, NULL);
}
ssize_t __wrap_write(int fd, const void *b, size_t n) { return isv(fd) ? vwrite(fd, b, n, 0) : __real_write(fd, b, n); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl) { return isv(fd) ? vwrite(fd, b, n, fl & MSG_NOSIGNAL) : __real_send(fd, b, n, fl); }
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l) { (void)a; (void)l; return __wrap_send(fd, b, n, fl); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int c)
{
    if (!isv(fd)) return __real_writev(fd, v, c);
    unsigned char buf[65536];
    size_t k = 0;
    for (int i = 0; i < c; i++) {
        if (k + v[i].iov_len > sizeof buf) _exit(97);
        memcpy(buf + k, v[i].iov_base, v[i].iov_len);
        k += v[i].iov_len;
    }
    return vwrite(fd, buf, k, 0);
}

static int vpoll(int ms) { return ask('P', ms, NULL, 0, NULL, NULL); }
int __wrap_poll(struct pollfd *p, nfds_t n, int ms)
{
    int r = 0;
    for (nfds_t i = 0; i < n; i++) {
        p[i].revents = 0;
        if (!isv(p[i].fd)) continue;
        if (p[i].events & POLLOUT) p[i].revents |= POLLOUT;
        else if ((p[i].events & POLLIN) && vpoll(ms) > 0) p[i].revents |= POLLIN;
        r += p[i].revents != 0;
    }
    return r;
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t)
{
    int c = 0;
    if (e) FD_ZERO(e);
    if (w) for (int i = 0; i < n; i++) c += !!FD_ISSET(i, w);
    if (r) for (int i = 0; i < n; i++) if (FD_ISSET(i, r)) {
        if (isv(i) && vpoll(t ? (int)(t->tv_sec * 1000 + t->tv_usec / 1000) : -1) > 0) c++;
        else FD_CLR(i, r);
    }
    return c;
}

int __wrap_isatty(int fd) { return isv(fd) ? (kind[fd] == SER ? 1 : (errno = ENOTTY, 0)) : __real_isatty(fd); }
int __wrap_tcgetattr(int fd, struct termios *t) { if (!isv(fd)) { errno = EBADF; return -1; } *t = vtio; return 0; }
int __wrap_tcsetattr(int fd, int how, const struct termios *t)
{
    (void)how;
    if (!isv(fd)) { errno = EBADF; return -1; }
    int32_t v[6] = { (int32_t)cfgetospeed(t), (int32_t)cfgetispeed(t), t->c_cc[VTIME], t->c_cc[VMIN], (int32_t)t->c_cflag, (int32_t)t->c_lflag };
    int r = ask('A', 0, v, sizeof v, NULL, NULL);
    if (!r) vtio = *t;
    return r;
}
int __wrap_tcdrain(int fd) { if (!isv(fd)) { errno = EBADF; return -1; } return ask('D', 0, NULL, 0, NULL, NULL); }
int __wrap_tcflush(int fd, int q) { if (!isv(fd)) { errno = EBADF; return -1; } return ask('F', q, NULL, 0, NULL, NULL); }
int __wrap_ioctl(int fd, unsigned long rq, ...)
{
    va_list ap;
    va_start(ap, rq);
    void *p = va_arg(ap, void *);
    va_end(ap);
    if (!isv(fd)) return __real_ioctl(fd, rq, p);
    if (rq == FIONREAD) { *(int *)p = ask('N', 0, NULL, 0, NULL, NULL); return 0; }
    return 0;
}
int __wrap_fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    long p = va_arg(ap, long);
    va_end(ap);
    if (!isv(fd)) return __real_fcntl(fd, cmd, p);
    if (cmd == F_GETFL) return O_RDWR | (nonblock[fd] ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) nonblock[fd] = !!(p & O_NONBLOCK);
    return 0;
}

int __wrap_socket(int d, int t, int p) { (void)d; (void)p; if (ask('K', 0, NULL, 0, NULL, NULL) < 0) return -1; int fd = newfd(SOCK); nonblock[fd] = !!(t & SOCK_NONBLOCK); return fd; }
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t l)
{
    (void)l;
    if (!isv(fd)) { errno = EBADF; return -1; }
    return ask('C', a->sa_family == AF_INET ? ntohs(((const struct sockaddr_in *)a)->sin_port) : -1, NULL, 0, NULL, NULL);
}
int __wrap_setsockopt(int fd, int lv, int o, const void *v, socklen_t l)
{
    if (!isv(fd)) { errno = EBADF; return -1; }
    int32_t m[3] = { o, 0, 0 };
    if (lv != SOL_SOCKET) return 0;
    if ((o == SO_RCVTIMEO || o == SO_SNDTIMEO) && l == sizeof(struct timeval)) {
        m[1] = (int32_t)((const struct timeval *)v)->tv_sec;
        m[2] = (int32_t)((const struct timeval *)v)->tv_usec;
        m[0] = o == SO_RCVTIMEO ? 1 : 2;
    } else m[0] = 0;
    return ask('T', 0, m, sizeof m, NULL, NULL);
}
int __wrap_getsockopt(int fd, int lv, int o, void *v, socklen_t *l) { (void)lv; (void)o; if (!isv(fd)) { errno = EBADF; return -1; } memset(v, 0, *l); return 0; }
int __wrap_shutdown(int fd, int h) { (void)h; if (!isv(fd)) { errno = EBADF; return -1; } return 0; }

int __wrap_getaddrinfo(const char *host, const char *port, const struct addrinfo *h, struct addrinfo **res)
{
    char q[512];
    (void)h;
    snprintf(q, sizeof q, "%s %s", host ? host : "", port ? port : "");
    int r = ask('G', 0, q, strlen(q), NULL, NULL);
    if (r < 0) return EAI_NONAME;
    struct { struct addrinfo a; struct sockaddr_in s; } *x = calloc(1, sizeof *x);
    x->a.ai_family = AF_INET;
    x->a.ai_socktype = SOCK_STREAM;
    x->a.ai_protocol = IPPROTO_TCP;
    x->a.ai_addr = (struct sockaddr *)&x->s;
    x->a.ai_addrlen = sizeof x->s;
    x->s.sin_family = AF_INET;
    x->s.sin_port = htons((uint16_t)(port ? atoi(port) : 0));
    x->s.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    *res = &x->a;
    return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *a) { while (a) { struct addrinfo *n = a->ai_next; free(a); a = n; } }

time_t __wrap_time(time_t *t) { time_t v = (time_t)(1700000000 + vus / 1000000); if (t) *t = v; return v; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { (void)c; vus += 1; t->tv_sec = 1700000000 + vus / 1000000; t->tv_nsec = (vus % 1000000) * 1000; return 0; }
int __wrap_gettimeofday(struct timeval *t, void *z) { (void)z; vus += 1; t->tv_sec = 1700000000 + vus / 1000000; t->tv_usec = vus % 1000000; return 0; }
static void pass(long long us) { ask('S', (int)(us / 1000), NULL, 0, NULL, NULL); vus += us; }
int __wrap_usleep(useconds_t u) { pass(u); return 0; }
unsigned __wrap_sleep(unsigned s) { pass(s * 1000000LL); return 0; }
int __wrap_nanosleep(const struct timespec *t, struct timespec *r) { (void)r; pass(t->tv_sec * 1000000LL + t->tv_nsec / 1000); return 0; }
