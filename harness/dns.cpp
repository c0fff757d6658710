// Drives DNSResolver; lookups wait for the driver's answer, time passes when told.
#include <amqpprox_dnsresolver.h>

#include <arpa/inet.h>
#include <netdb.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/timerfd.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <condition_variable>
#include <cstdlib>
#include <iostream>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

using namespace Bloomberg::amqpprox;

static std::atomic<long long> g_now{1000000000000LL};
static std::mutex             g_m;
static std::condition_variable g_cv;
static bool                    g_waiting = false, g_given = false;
static std::string             g_host, g_service, g_answer;

extern "C" int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (id == CLOCK_MONOTONIC) {
        ts->tv_sec  = g_now / 1000000000LL;
        ts->tv_nsec = g_now % 1000000000LL;
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}

extern "C" int timerfd_settime(int fd, int flags, const struct itimerspec *, struct itimerspec *ov)
{
    struct itimerspec v;
    memset(&v, 0, sizeof v);
    v.it_value.tv_nsec = 1;
    return (int)syscall(SYS_timerfd_settime, fd, flags & ~TFD_TIMER_ABSTIME, &v, ov);
}

static struct addrinfo *one(const std::string &addr, const char *service)
{
    bool   v6 = addr == "6";
    size_t sl = v6 ? sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_in);
    auto  *a  = (struct addrinfo *)calloc(1, sizeof(struct addrinfo) + sl);
    a->ai_addr     = (struct sockaddr *)(a + 1);
    a->ai_addrlen  = sl;
    a->ai_family   = v6 ? AF_INET6 : AF_INET;
    a->ai_socktype = SOCK_STREAM;
    if (v6) {
        auto *s        = (struct sockaddr_in6 *)a->ai_addr;
        s->sin6_family = AF_INET6;
        s->sin6_port   = htons(atoi(service));
        inet_pton(AF_INET6, "::6", &s->sin6_addr);
    }
    else {
        auto *s       = (struct sockaddr_in *)a->ai_addr;
        s->sin_family = AF_INET;
        s->sin_port   = htons(atoi(service));
        inet_pton(AF_INET, ("10.0.0." + addr).c_str(), &s->sin_addr);
    }
    return a;
}

extern "C" int getaddrinfo(const char *node, const char *service, const struct addrinfo *, struct addrinfo **res)
{
    std::unique_lock<std::mutex> l(g_m);
    g_host    = node ? node : "";
    g_service = service ? service : "";
    g_waiting = true;
    g_given   = false;
    g_cv.notify_all();
    g_cv.wait(l, [] { return g_given; });
    g_waiting = false;
    std::istringstream in(g_answer);
    std::string        a;
    struct addrinfo   *head = nullptr, **tail = &head;
    while (in >> a) {
        if (a == "fail") return EAI_NONAME;
        if (a == "again") return EAI_AGAIN;
        if (a == "error") return EAI_FAIL;
        *tail = one(a, g_service.c_str());
        tail  = &(*tail)->ai_next;
    }
    *res = head;
    return 0;
}

extern "C" void freeaddrinfo(struct addrinfo *a)
{
    while (a) {
        auto *n = a->ai_next;
        free(a);
        a = n;
    }
}

using Ep = boost::asio::ip::tcp::endpoint;
static std::string      g_cb;
static std::atomic<int> g_cbs{0};

static std::string show(const Ep &e)
{
    std::string a = e.address().to_string();
    return (a.rfind("10.0.0.", 0) == 0 ? a.substr(7) : a == "::6" ? "6" : a) + "/" + std::to_string(e.port());
}

static void settle(boost::asio::io_context &io, int want, int ms)
{
    for (int i = 0; i < ms * 20; ++i) {
        io.restart();
        io.poll();
        if (want >= 0 && g_cbs >= want) break;
        usleep(50);
    }
    for (int i = 0; i < 4; ++i) {
        io.restart();
        io.poll();
        usleep(20);
    }
}

int main()
{
    boost::asio::io_context io;
    auto                    work = boost::asio::make_work_guard(io);
    DNSResolver             r(io);
    std::string             line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string        op;
        int                want = 0;
        std::string        asked;
        in >> op >> want;
        g_cb.clear();
        g_cbs = 0;
        if (op == "Resolve") {
            int         id;
            std::string h, s, ch, cs;
            in >> id >> h >> s >> ch >> cs;
            r.resolve(h, s, [id, ch, cs, &r](const boost::system::error_code &ec, std::vector<Ep> eps) {
                std::ostringstream o;
                o << " " << id << (ec ? ":err" : ":ok");
                for (auto &e : eps)
                    o << "," << show(e);
                g_cb += o.str();
                ++g_cbs;
                if (ch != "-") {
                    r.resolve(ch, cs, [id](const boost::system::error_code &ec, std::vector<Ep> eps) {
                        std::ostringstream o;
                        o << " " << id + 1 << (ec ? ":err" : ":ok");
                        for (auto &e : eps)
                            o << "," << show(e);
                        g_cb += o.str();
                        ++g_cbs;
                    });
                }
            });
        }
        else if (op == "Answer") {
            std::string rest;
            std::getline(in, rest);
            std::unique_lock<std::mutex> l(g_m);
            if (g_cv.wait_until(l, std::chrono::system_clock::now() + std::chrono::milliseconds(1500),
                                [] { return g_waiting && !g_given; })) {
                asked    = g_host + "/" + g_service;
                g_answer = rest;
                g_given  = true;
                g_cv.notify_all();
            }
            else {
                asked = "none/none";
            }
        }
        else if (op == "Put") {
            std::string     h, s, a;
            std::vector<Ep> v;
            in >> h >> s;
            while (in >> a)
                v.emplace_back(boost::asio::ip::make_address(a == "6" ? "::6" : "10.0.0." + a), atoi(s.c_str()));
            r.setCachedResolution(h, s, std::move(v));
        }
        else if (op == "Clear") {
            std::string h, s;
            in >> h >> s;
            r.clearCachedResolution(h, s);
        }
        else if (op == "Timeout") {
            int d;
            in >> d;
            r.setCacheTimeout(d);
        }
        else if (op == "Start")
            r.startCleanupTimer();
        else if (op == "Stop")
            r.stopCleanupTimer();
        else if (op == "Pass") {
            long long d;
            in >> d;
            g_now += d * 1000000LL;
        }
        settle(io, want, want ? 3000 : 0);
        std::cout << (asked.empty() ? "-/-" : asked) << g_cb << std::endl;
    }
    _exit(0);
}
