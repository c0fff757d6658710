/* LD_PRELOAD recorder used by the system drivers: logs every outgoing TCP
 * connection attempt of the proxy, and resolves the host names of a test-local
 * hosts file (so that name lookups need no network).  With SHIM_CLOCK, the
 * monotonic clock is the number of nanoseconds in that (mapped) file, so that a
 * driver decides when time passes. It changes nothing else. */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <time.h>
#include <unistd.h>

static volatile const long long *fake;

__attribute__((constructor)) static void init(void)
{
    const char *p = getenv("SHIM_CLOCK");
    if (!p) return;
    int fd = open(p, O_RDONLY | O_CLOEXEC);
    if (fd < 0) return;
    void *m = mmap(NULL, 4096, PROT_READ, MAP_SHARED, fd, 0);
    if (m != MAP_FAILED) fake = m;
    close(fd);
}

/* Under the driver's clock, timers look at the clock again every 4 ms. */
int timerfd_settime(int fd, int flags, const struct itimerspec *nv, struct itimerspec *ov)
{
    struct itimerspec v = *nv;
    if (fake && !(flags & TFD_TIMER_ABSTIME) && (v.it_value.tv_sec || v.it_value.tv_nsec > 4000000)) {
        v.it_value.tv_sec = 0;
        v.it_value.tv_nsec = 4000000;
    }
    return (int)syscall(SYS_timerfd_settime, fd, flags, &v, ov);
}

/* With SHIM_WALL as well, so is the time of day. */
int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    struct timespec ts;
    if (fake && getenv("SHIM_WALL")) {
        long long v = *fake;
        tv->tv_sec  = 1700000000 + v / 1000000000LL;
        tv->tv_usec = v % 1000000000LL / 1000;
        return 0;
    }
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    tv->tv_sec  = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (id == CLOCK_MONOTONIC && fake) {
        long long v = *fake;
        ts->tv_sec = v / 1000000000LL;
        ts->tv_nsec = v % 1000000000LL;
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}

static void logline(const char *s)
{
    const char *p = getenv("SHIM_LOG");
    if (!p) return;
    int fd = open(p, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0600);
    if (fd < 0) return;
    ssize_t n = write(fd, s, strlen(s));
    (void)n;
    close(fd);
}

int connect(int fd, const struct sockaddr *a, socklen_t len)
{
    static int (*real)(int, const struct sockaddr *, socklen_t);
    if (!real) real = dlsym(RTLD_NEXT, "connect");
    char ip[64], buf[128];
    if (a && a->sa_family == AF_INET) {
        const struct sockaddr_in *s = (const void *)a;
        inet_ntop(AF_INET, &s->sin_addr, ip, sizeof ip);
        snprintf(buf, sizeof buf, "C %s %d\n", ip, ntohs(s->sin_port));
        logline(buf);
    }
    else if (a && a->sa_family == AF_INET6) {
        const struct sockaddr_in6 *s = (const void *)a;
        inet_ntop(AF_INET6, &s->sin6_addr, ip, sizeof ip);
        snprintf(buf, sizeof buf, "C %s %d\n", ip, ntohs(s->sin6_port));
        logline(buf);
    }
    const char *h = getenv("SHIM_HOLD");
    if (h && a && a->sa_family == AF_INET && access(h, F_OK) == 0) {
        /* the driver keeps this thread busy for a while */
        logline("H\n");
        while (access(h, F_OK) == 0) usleep(300);
    }
    return real(fd, a, len);
}

/* With SHIM_GATE, the n-th lookup ends when that file has n bytes. */
static void gate(void)
{
    static int n;
    const char *p = getenv("SHIM_GATE");
    struct stat st;
    if (!p) return;
    int k = __sync_add_and_fetch(&n, 1);
    while (stat(p, &st) == 0 && st.st_size < k) usleep(300);
}

int getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res)
{
    static int (*real)(const char *, const char *, const struct addrinfo *, struct addrinfo **);
    if (!real) real = dlsym(RTLD_NEXT, "getaddrinfo");
    /* loopback may be the only interface there is */
    struct addrinfo any;
    if (hints) {
        any = *hints;
        any.ai_flags &= ~AI_ADDRCONFIG;
        hints = &any;
    }
    const char *hf = getenv("SHIM_HOSTS");
    if (!node || !hf) return real(node, service, hints, res);
    FILE *f = fopen(hf, "re");
    if (!f) return real(node, service, hints, res);
    char line[1024];
    int gated = 0;
    while (fgets(line, sizeof line, f)) {
        char *save = NULL, *tok = strtok_r(line, " \t\n", &save);
        if (!tok || strcmp(tok, node)) continue;
        char lg[256];
        snprintf(lg, sizeof lg, "R %s %s\n", node, service ? service : "");
        if (!gated && getenv("SHIM_GATE")) {
            /* what the table says then is the answer */
            logline(lg);
            gate();
            gated = 1;
            fclose(f);
            if (!(f = fopen(hf, "re"))) return EAI_AGAIN;
            continue;
        }
        if (!gated) logline(lg);
        struct addrinfo *head = NULL, **tail = &head;
        while ((tok = strtok_r(NULL, " \t\n", &save))) {
            if (!strcmp(tok, "FAIL")) break;
            struct addrinfo h, *one = NULL;
            memset(&h, 0, sizeof h);
            if (hints) h = *hints;
            h.ai_flags &= ~AI_ADDRCONFIG;
            h.ai_socktype = SOCK_STREAM;
            if (real(tok, service, &h, &one) == 0) {
                *tail = one;
                while (*tail) tail = &(*tail)->ai_next;
            }
        }
        fclose(f);
        if (!head) return EAI_NONAME;
        *res = head;
        return 0;
    }
    fclose(f);
    return real(node, service, hints, res);
}

/* Reverse lookups: 127.1.2.3 is host-127-1-2-3.test; other addresses, and those ending in 240 and above, have no name. */
int getnameinfo(const struct sockaddr *restrict a, socklen_t alen, char *restrict host, socklen_t hlen, char *restrict serv, socklen_t slen, int flags)
{
    static int (*real)(const struct sockaddr *, socklen_t, char *, socklen_t, char *, socklen_t, int);
    if (!real) real = dlsym(RTLD_NEXT, "getnameinfo");
    if (!getenv("SHIM_HOSTS") || (flags & NI_NUMERICHOST) || a->sa_family != AF_INET) return real(a, alen, host, hlen, serv, slen, flags);
    const unsigned char *b = (const unsigned char *)&((const struct sockaddr_in *)a)->sin_addr;
    if (b[0] != 127 || b[3] >= 240) return EAI_NONAME;
    if (host) snprintf(host, hlen, "host-%d-%d-%d-%d.test", b[0], b[1], b[2], b[3]);
    if (serv) snprintf(serv, slen, "%d", ntohs(((const struct sockaddr_in *)a)->sin_port));
    return 0;
}
