// B06, sequential part: every sequence of takes and releases (in any order) up to the depth, for pools around every size class.
#include "mc.hpp"
#include "blob.hpp"
#include <vector>
#include <string>
#include <cstring>
using namespace mc;
static void seq(size_t n, size_t sz, int depth, size_t prefill) {
    std::string N = "pool of " + std::to_string(n) + " slots of " + std::to_string(sz) + " bytes, " + std::to_string(depth) + " operations, " + std::to_string(prefill) + " taken";
    scenario(N, [=] {
        sample("%s", N.c_str());
        Opts o; o.iterate = false;
        explore(o, [&] {
            Slab s(n, sz); std::vector<Blob> own; std::vector<uint8_t*> base(n, nullptr); std::vector<int> held(n, 0); std::string hist; uint64_t h = n * 31 + sz;
            MC_CHECK(s.capacity() == n && s.max_blob_size() == sz, "size", "%s: reports %zu slots of %zu bytes", N.c_str(), s.capacity(), s.max_blob_size());
            auto take = [&] {
                size_t av = n - own.size(); MC_CHECK(s.available_slots() == av, "count", "%s: %zu slots are free, %zu are reported;%s", N.c_str(), av, s.available_slots(), hist.c_str());
                auto r = s.take_slot(); MC_CHECK(r.is_ok() == (av > 0), "take", "%s: %zu slots free, taking %s;%s", N.c_str(), av, r.is_ok() ? "succeeds" : "fails", hist.c_str());
                if (!r.is_ok()) return;
                Blob b = r.unwrap(); MC_CHECK(b.slot_idx < n && b.len == sz && b.owner_slab == &s && !held[b.slot_idx], "two-owners", "%s: slot %zu (%zu bytes) handed out twice or out of range;%s", N.c_str(), b.slot_idx, b.len, hist.c_str());
                for (auto& x : own) MC_CHECK(b.data + sz <= x.data || x.data + sz <= b.data, "overlap", "%s: slots %zu and %zu overlap;%s", N.c_str(), b.slot_idx, x.slot_idx, hist.c_str());
                held[b.slot_idx] = 1; memset(b.data, (int)(b.slot_idx * 37 + 5), sz); own.push_back(b); h = hmix(h, b.slot_idx);
            };
            auto rel = [&](size_t i) {
                Blob b = own[i]; for (size_t k = 0; k < sz; ++k) MC_CHECK(b.data[k] == (uint8_t)(b.slot_idx * 37 + 5), "content", "%s: byte %zu of slot %zu changed while owned;%s", N.c_str(), k, b.slot_idx, hist.c_str());
                own.erase(own.begin() + i); held[b.slot_idx] = 0; b.len = 1; b.release(); MC_CHECK(b.owner_slab == nullptr, "released", "%s: a released blob still names its pool", N.c_str()); h = hmix(h, 100 + b.slot_idx);
            };
            for (size_t i = 0; i < prefill; ++i) take();
            for (int d = 0; d < depth; ++d) {
                size_t m = own.size(), k = (size_t)choose((int)std::min<size_t>(m, 4) + 1);
                if (k == 0) { hist += " take"; take(); } else { size_t i = k == 4 ? m - 1 : k - 1; hist += " release#" + std::to_string(i); rel(i); }
                note("%s:%s", N.c_str(), hist.c_str()); count_trans(); state(h);
            }
            while (!own.empty()) rel(own.size() / 2);
            MC_CHECK(s.available_slots() == n, "lost-slot", "%s: %zu of %zu slots available in the end;%s", N.c_str(), s.available_slots(), n, hist.c_str());
            for (size_t i = 0; i < n; ++i) take();
            take(); outcome(h);
        });
    });
}
static void setup() {
    int D = thorough() ? 2 : 0;
    for (size_t n : {1, 2, 3, 4}) for (size_t sz : {1, 7, 256}) seq(n, sz, 8 + D, 0);
    seq(5, 3, 8 + D, 3); seq(10, 64, 7 + D, 9); seq(100, 256, 5 + D, 98); seq(511, 4, 4, 510); seq(512, 4, 4, 511); seq(513, 2, 4, 512); seq(600, 1, 4, 597); seq(1024, 1, 3, 1023);
}
MC_MAIN(setup)
