// C03 (part): two threads create the first channels of the process at the same time; both must come out right.
#include "mc.hpp"
#include "cler.hpp"
#include <thread>
#include <memory>
#include <vector>
using namespace mc;
static void verify(cler::Channel<float>& c, size_t req, const char* who) {
    NoRace n; auto& q = c._queue; size_t cap = q.capacity();
    MC_CHECK(cap >= req, "capacity", "%s: requested %zu, offered %zu", who, req, cap);
    std::vector<float> t(cap + 1);
    for (size_t i = 0; i < cap; ++i) t[i] = (float)i;
    size_t a = cap - 3;
    MC_CHECK(c.writeN(t.data(), a) == a, "bulk", "%s: no room", who); c.commit_read(a);       // move to the wrap point
    MC_CHECK(c.writeN(t.data(), cap) == cap, "bulk", "%s: no room at the wrap point", who);
    if (q.is_doubly_mapped()) {
        auto [p, k] = c.read_dbf(); MC_CHECK(k == cap, "view", "%s: read view has %zu of %zu", who, k, cap);
        for (size_t i = 0; i < k; ++i) MC_CHECK(p[i] == (float)i, "content", "%s: element %zu of the contiguous view is wrong (capacity %zu)", who, i, cap);
    }
    outcome(hmix(cap, q.is_doubly_mapped()));
}
static void two(size_t ra, size_t rb, int bound) {
    char nm[100]; snprintf(nm, sizeof nm, "first use by two threads: %zu and %zu elements", ra, rb);
    scenario(nm, [=] {
        sample("%s", nm); Opts o; o.threads = true; o.fork_each = true; o.bound = bound; o.stale = 1; o.races = false;
        explore(o, [=] {
            std::unique_ptr<cler::Channel<float>> a, b;
            std::thread t([&] { a = std::make_unique<cler::Channel<float>>(ra); });
            b = std::make_unique<cler::Channel<float>>(rb);
            t.join();
            note("capacities %zu %zu contiguous %d %d", a->_queue.capacity(), b->_queue.capacity(), a->_queue.is_doubly_mapped(), b->_queue.is_doubly_mapped());
            MC_CHECK(a->_queue.is_doubly_mapped() == b->_queue.is_doubly_mapped(), "support", "two equal requests, but only one channel supports contiguous views");
            verify(*a, ra, "first"); verify(*b, rb, "second");
        });
    });
}
static void setup() { two(1500, 1500, 2); two(1023, 3000, 1); if (thorough()) { two(1500, 1500, 3); two(2000, 5000, 2); } }
MC_MAIN(setup)
