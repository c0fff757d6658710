// Drives BufferPool/BufferHandle; one command per line, one observation per line.
#include <amqpprox_bufferhandle.h>
#include <amqpprox_bufferpool.h>

#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

using namespace Bloomberg::amqpprox;

struct Slot {
    std::unique_ptr<BufferHandle> h = std::make_unique<BufferHandle>();
    unsigned                      seed = 0;
};

static unsigned char at(unsigned seed, std::size_t i)
{
    return static_cast<unsigned char>((seed * 2654435761u + i * 40503u) >> 7);
}

int main()
{
    std::string                       line;
    std::unique_ptr<BufferPool>       pool;
    std::map<std::string, Slot>       slots;
    unsigned                          seed = 1;

    auto fill = [&](Slot &s) {
        s.seed = seed++;
        for (std::size_t i = 0; i < s.h->size(); ++i)
            static_cast<unsigned char *>(s.h->data())[i] = at(s.seed, i);
    };

    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string        op, a, b;
        in >> op;
        std::size_t size = 0;
        bool        ok   = true;
        if (op == "POOL") {
            std::vector<std::size_t> c;
            std::size_t              n;
            while (in >> n)
                c.push_back(n);
            pool = std::make_unique<BufferPool>(c);
            std::cout << "-" << std::endl;
            continue;
        }
        else if (op == "Acquire") {
            std::size_t n;
            in >> a >> n;
            Slot &s = slots[a];
            pool->acquireBuffer(s.h.get(), n);
            size = s.h->size();
            ok   = s.h->data() != nullptr;
            fill(s);
        }
        else if (op == "Release") {
            in >> a;
            slots[a].h->release();
            size = slots[a].h->size();
        }
        else if (op == "Destroy") {
            in >> a;
            slots[a].h.reset();
            slots[a].h = std::make_unique<BufferHandle>();
        }
        else if (op == "Swap") {
            in >> a >> b;
            Slot &x = slots[a], &y = slots[b];
            x.h->swap(*y.h);
            std::swap(x.seed, y.seed);
            size = x.h->size();
        }
        else if (op == "Fill") {
            in >> a;
            fill(slots[a]);
            size = slots[a].h->size();
        }
        else if (op == "Churn") {
            std::size_t n;
            in >> n;
            std::set<void *> seen;
            for (int i = 0; i < 300; ++i) {
                BufferHandle h;
                pool->acquireBuffer(&h, n);
                seen.insert(h.data());
                if (h.size() != n)
                    ok = false;
                std::memset(h.data(), 0xA5, n);
            }
            if (n <= 131072 && seen.size() > 150)
                ok = false;
        }
        // contents and overlaps
        for (auto &p : slots) {
            Slot &s = p.second;
            for (std::size_t i = 0; i < s.h->size(); ++i)
                if (static_cast<unsigned char *>(s.h->data())[i] != at(s.seed, i)) {
                    ok = false;
                    break;
                }
            for (auto &q : slots) {
                if (&q == &p || !q.second.h->size() || !s.h->size())
                    continue;
                char *x = static_cast<char *>(s.h->data()), *y = static_cast<char *>(q.second.h->data());
                if (x < y + q.second.h->size() && y < x + s.h->size())
                    ok = false;
            }
        }
        std::vector<BufferPool::BufferAllocationStat> st;
        uint64_t                                      spill = 0;
        pool->getPoolStatistics(&st, &spill);
        std::cout << size << " " << (ok ? 1 : 0) << " " << spill;
        for (auto &x : st)
            std::cout << " " << std::get<0>(x) << ":" << std::get<1>(x) << ":" << std::get<2>(x);
        std::cout << std::endl;
    }
    return 0;
}
