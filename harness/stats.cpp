// Drives SessionCleanup, StatCollector and SessionState with the sessions of a real Server.
#include <amqpprox_bufferpool.h>
#include <amqpprox_connectionstats.h>
#include <amqpprox_dataratelimitmanager.h>
#include <amqpprox_eventsource.h>
#include <amqpprox_hostnamemapper.h>
#include <amqpprox_server.h>
#include <amqpprox_session.h>
#include <amqpprox_sessioncleanup.h>
#include <amqpprox_sessionstate.h>
#include <amqpprox_statcollector.h>
#include <amqpprox_statsnapshot.h>

#include <boost/log/core.hpp>

#include <arpa/inet.h>
#include <sys/socket.h>
#include <unistd.h>

#include <algorithm>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <thread>

using namespace Bloomberg::amqpprox;
using tcp = boost::asio::ip::tcp;

// Calls back in the middle of whoever asks for a session's names
struct Hook : HostnameMapper {
    mutable std::function<void()> d_f;
    void prime(boost::asio::io_context &, std::initializer_list<tcp::endpoint>) override {}
    std::string mapToHostname(const tcp::endpoint &e) const override
    {
        if (d_f) {
            auto f = std::move(d_f);
            d_f    = nullptr;
            f();
        }
        return e.address().to_string();
    }
};

static long long clip(uint64_t v)
{
    long long s = (long long)v;
    return std::max(-999999999LL, std::min(999999999LL, s));
}

static std::string row(const ConnectionStats &c)
{
    std::ostringstream o;
    for (auto n : {"packetsReceived", "packetsSent", "framesReceived", "framesSent", "bytesReceived", "bytesSent"})
        o << clip(c.statsValue(n)) << ",";
    for (auto n : {"receiveLatency", "sendLatency"}) {
        auto p = c.distributionPair(n);
        o << clip(p.first) << "," << clip(p.second) << ",";
    }
    for (auto n : {"pausedConnectionCount",
                   "activeConnectionCount",
                   "authDeniedConnectionCount",
                   "limitedConnectionCount",
                   "removedConnectionGraceful",
                   "removedConnectionBrokerSnapped"})
        o << clip(c.statsValue(n)) << ",";
    o << clip(c.statsValue("removedConnectionClientSnapped"));
    return o.str();
}

static std::string view(const StatSnapshot::StatsMap &m)
{
    std::ostringstream o;
    for (auto &k : m) o << k.first << "=" << row(k.second) << ";";
    return o.str().empty() ? "-" : o.str();
}

struct Ses {
    std::shared_ptr<Hook> d_hook;
    uint64_t              d_id;
    int                   d_fd;
};

int main()
{
    boost::log::core::get()->set_logging_enabled(false);
    EventSource   events;
    BufferPool    pool({32, 1024});
    StatCollector collector;
    DataRateLimitManager rates;
    Server        server(nullptr, &events, &pool, &rates);
    auto          work = boost::asio::make_work_guard(server.ioContext());
    std::thread   io([&] { server.run(); });
    int           port = 0;
    for (int t = 0; t < 50 && !port; ++t) {
        int         p = 20000 + (getpid() * 37 + t * 101) % 10000;
        int         s = socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a{};
        a.sin_family = AF_INET;
        a.sin_port   = htons(p);
        bool free    = bind(s, (sockaddr *)&a, sizeof a) == 0;
        close(s);
        if (free) port = p;
    }
    server.startListening(port, false);
    std::string said;
    auto        sub = events.statisticsAvailable().subscribe([&](StatCollector *c) {
        StatSnapshot s;
        c->populateStats(&s);
        said = row(s.overall()) + " " + view(s.vhosts()) + " " + view(s.backends()) + " " + view(s.sources());
    });
    SessionCleanup             cleanup(&collector, &events);
    std::map<std::string, Ses> ss;
    boost::asio::io_context    scratch;
    std::string                line;
    using D  = SessionState::DisconnectType;
    auto st  = [&](const std::string &s) -> SessionState & { return server.getSession(ss[s].d_id)->state(); };
    auto end = [&](const std::string &s, const std::string &k) {
        st(s).setDisconnected(k == "client" ? D::DISCONNECTED_CLIENT
                              : k == "server" ? D::DISCONNECTED_SERVER
                              : k == "clean" ? D::DISCONNECTED_CLEANLY
                                             : D::DISCONNECTED_PROXY);
    };
    auto traffic = [&](const std::string &s, const std::string &d, long f, long b, long l) {
        if (d == "in") {
            st(s).incrementIngressTotals(f, b);
            st(s).addIngressLatency(l);
        }
        else {
            st(s).incrementEgressTotals(f, b);
            st(s).addEgressLatency(l);
        }
    };
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string        op, s, x, y;
        in >> op;
        said.clear();
        if (op == "Open") {
            std::string v, bip;
            int         bport;
            in >> s >> x >> v >> bip >> bport;
            std::map<uint64_t, bool> before;
            server.visitSessions([&](const std::shared_ptr<Session> &p) { before[p->state().id()] = true; });
            sockaddr_in a{}, to{};
            a.sin_family = to.sin_family = AF_INET;
            inet_pton(AF_INET, x.c_str(), &a.sin_addr);
            inet_pton(AF_INET, "127.0.0.1", &to.sin_addr);
            to.sin_port = htons(port);
            int fd = -1;
            for (int t = 0; t < 2000; ++t) {
                fd = socket(AF_INET, SOCK_STREAM, 0);
                if (bind(fd, (sockaddr *)&a, sizeof a) == 0 && connect(fd, (sockaddr *)&to, sizeof to) == 0) break;
                close(fd);
                fd = -1;
                usleep(1000);
            }
            if (fd < 0) return 9;
            uint64_t id = 0;
            for (int t = 0; t < 50000 && !id; ++t) {
                server.visitSessions([&](const std::shared_ptr<Session> &p) {
                    if (!before.count(p->state().id()) && p->state().getIngress().second.port() != 0) id = p->state().id();
                });
                if (!id) usleep(100);
            }
            if (!id) return 9;
            ss[s] = Ses{std::make_shared<Hook>(), id, fd};
            st(s).setHostnameMapper(scratch, ss[s].d_hook);
            st(s).setVirtualHost(v == "@" ? "" : v);
            if (bport)
                st(s).setEgress(scratch,
                                tcp::endpoint(boost::asio::ip::address::from_string("127.0.0.1"), 40000),
                                tcp::endpoint(boost::asio::ip::address::from_string(bip), bport));
        }
        else if (op == "Traffic") {
            long f, b, l;
            in >> s >> x >> f >> b >> l;
            traffic(s, x, f, b, l);
        }
        else if (op == "Flag") {
            in >> s >> x;
            if (x == "paused") st(s).setPaused(true);
            if (x == "unpause") st(s).setPaused(false);
            if (x == "limited") st(s).setLimitedConnection();
            if (x == "denied") st(s).setAuthDeniedConnection(true);
        }
        else if (op == "End") {
            in >> s >> x;
            end(s, x);
        }
        else if (op == "PerSource") {
            in >> x;
            collector.collectPerSourceStats(x == "1");
        }
        else if (op == "Report") {
            long f, b, l;
            in >> x;
            Hook *h = nullptr;
            if (x == "end") {
                in >> s >> y;
                h      = ss[s].d_hook.get();
                h->d_f = [&] { end(s, y); };
            }
            if (x == "traffic") {
                in >> s >> y >> f >> b >> l;
                h      = ss[s].d_hook.get();
                h->d_f = [&] { traffic(s, y, f, b, l); };
            }
            cleanup.cleanup(nullptr, &server);
            if (h && h->d_f) {
                auto g = std::move(h->d_f);
                h->d_f = nullptr;
                g();
            }
        }
        std::cout << (said.empty() ? "." : said) << std::endl;
    }
    _exit(0);
}
