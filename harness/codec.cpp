// Decodes and re-encodes AMQP values, methods and frames; one command per line, one observation per line.
//   C kind room hex   /   D kind type n
#include <amqpprox_buffer.h>
#include <amqpprox_fieldtable.h>
#include <amqpprox_frame.h>
#include <amqpprox_methods_close.h>
#include <amqpprox_methods_open.h>
#include <amqpprox_methods_openok.h>
#include <amqpprox_methods_start.h>
#include <amqpprox_methods_startok.h>
#include <amqpprox_methods_tune.h>
#include <amqpprox_methods_tuneok.h>
#include <amqpprox_types.h>

#include <boost/log/core.hpp>

#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

using namespace Bloomberg::amqpprox;

struct Table {
    FieldTable  t;
    static bool decode(Table *t, Buffer &b) { return Types::decodeFieldTable(&t->t, b); }
    static bool encode(Buffer &b, const Table &t) { return Types::encodeFieldTable(b, t.t); }
};
std::ostream &operator<<(std::ostream &os, const Table &t) { return os << t.t; }

static std::string hex(const char *p, std::size_t n)
{
    static const char *d = "0123456789abcdef";
    std::string        r;
    for (std::size_t i = 0; i < n; ++i) {
        r += d[(p[i] >> 4) & 15];
        r += d[p[i] & 15];
    }
    return r.empty() ? "-" : r;
}

// Memory of exactly this size, so that a sanitizer sees the first byte beyond
struct Mem {
    std::unique_ptr<char[]> p;
    std::size_t             n;
    explicit Mem(std::size_t size) : p(new char[size]), n(size) {}
};

template <typename T>
static void codec(const std::string &in, std::size_t room, bool deep = false)
{
    Mem src(in.size());
    memcpy(src.p.get(), in.data(), in.size());
    Buffer             b(src.p.get(), src.n);
    T                  t;
    std::ostringstream shown;
    if (!T::decode(&t, b)) {
        std::cout << "no 0 0 -" << std::endl;
        return;
    }
    shown << t;
    Mem    full(in.size() + 64);
    Buffer w(full.p.get(), full.n);
    if (!T::encode(w, t)) {
        std::cout << "ok " << b.available() << " 0 -" << std::endl;
        return;
    }
    std::string whole(full.p.get(), w.offset());
    if (room) {
        std::size_t cap = whole.size() > room ? whole.size() - room : 0;
        Mem         less(cap);
        Buffer      l(less.p.get(), less.n);
        bool        r = T::encode(l, t);
        std::cout << "ok " << b.available() << " " << r << " " << (r ? hex(less.p.get(), cap) : "-") << std::endl;
        return;
    }
    Mem    exact(whole.size());
    Buffer x(exact.p.get(), exact.n);
    bool   r = T::encode(x, t) && x.offset() == exact.n && 0 == memcmp(exact.p.get(), whole.data(), exact.n);
    std::cout << "ok " << b.available() << " " << r << " " << (deep ? "-" : hex(exact.p.get(), exact.n)) << std::endl;
}

static void frame(const std::string &in)
{
    Mem src(in.size());
    memcpy(src.p.get(), in.data(), in.size());
    Frame       f;
    const void *end    = 0;
    std::size_t remain = 0;
    try {
        if (!Frame::decode(&f, &end, &remain, src.p.get(), src.n)) {
            std::cout << "more 0 0 -" << std::endl;
            return;
        }
    }
    catch (std::runtime_error &e) {
        std::cout << "bad 0 0 -" << std::endl;
        return;
    }
    std::size_t used = static_cast<const char *>(end) - src.p.get();
    Mem         o(f.length + 8);
    std::size_t n = 0;
    bool        r = Frame::encode(o.p.get(), &n, f);
    if (used + remain != src.n)
        r = false;
    std::cout << "frame " << remain << " " << r << " " << hex(o.p.get(), n) << std::endl;
}

static void run(const std::string &kind, const std::string &in, std::size_t room, bool deep = false)
{
    if (kind == "table")
        codec<Table>(in, room, deep);
    else if (kind == "start")
        codec<methods::Start>(in, room, deep);
    else if (kind == "startok")
        codec<methods::StartOk>(in, room, deep);
    else if (kind == "tune")
        codec<methods::Tune>(in, room);
    else if (kind == "tuneok")
        codec<methods::TuneOk>(in, room);
    else if (kind == "open")
        codec<methods::Open>(in, room);
    else if (kind == "openok")
        codec<methods::OpenOk>(in, room);
    else if (kind == "close")
        codec<methods::Close>(in, room);
    else
        frame(in);
}

static std::string u32(std::size_t n)
{
    return std::string{char(n >> 24), char(n >> 16), char(n >> 8), char(n)};
}

int main()
{
    boost::log::core::get()->set_logging_enabled(false);
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string        op, kind, s;
        std::size_t        n = 0;
        in >> op >> kind;
        if (op == "C") {
            in >> n >> s;
            std::string b;
            for (std::size_t i = 0; i + 1 < s.size(); i += 2)
                b += static_cast<char>(std::stoi(s.substr(i, 2), 0, 16));
            run(kind, b, n);
        }
        else if (op == "D") {
            in >> s >> n;
            // from the inside out, back to front
            std::vector<std::string> heads;
            std::size_t              size = 0;
            for (std::size_t i = 0; i < n; ++i) {
                std::string h = (s == "F" ? std::string("\1kF", 3) : std::string("A", 1)) + u32(size);
                size += h.size();
                heads.push_back(h);
            }
            if (s == "A") {
                heads.push_back(std::string("\1k", 2));
                size += 2;
            }
            std::string b = (kind == "start" ? std::string("\0\11", 2) : "") + u32(size);
            for (auto it = heads.rbegin(); it != heads.rend(); ++it)
                b += *it;
            if (kind == "start")
                b += u32(0) + u32(0);
            if (kind == "startok")
                b += std::string(1, 0) + u32(0) + std::string(1, 0);
            run(kind, b, 0, true);
        }
        else {
            std::cout << "hello" << std::endl;
        }
    }
}
