// C06: blocking transfers finish under every interleaving once the peer has done its part.
#include "chan_wait.hpp"
using namespace mc;
static void setup() {
    { cler::Channel<Elem<2048>> warm(1); }
    using E = Elem<16>; bool T = thorough();
    std::vector<int> all = {U_PUSH, U_TRY, U_TRYTHENPUSH, U_BULK2, U_PEEK2, U_SPACE2}, blk = {U_PUSH, U_PUSHMV, U_TRYTHENPUSH, U_SPACE2};
    waiting<Small, 1>("8B", ST_STACK, false, 2, 1, 2, all, true);
    waiting<Small, 1>("8B", ST_STACK, false, 2, 1, 3, {U_PUSH, U_BULK2, U_TRYTHENPUSH}, false);
    waiting<E, 2>("16B", ST_HEAP, false, 2, 1, 3, {U_PUSH, U_SPACE2}, true);
    waiting<E, 1>("16B", ST_QHEAP, false, 2, 2, 4, {U_PUSHMV}, true);
    waiting<E, 2>("16B", ST_QSTACK, false, 2, 1, 6, {U_PUSH}, false);
    waiting<Elem<2048>, 1>("2KB view", ST_HEAP, false, 1, 1, 3, {U_PUSH, U_DBF2, U_TRYTHENPUSH}, true);
    waiting<Small, 1>("8B", ST_QSTACK, true, 2, 1, 2, {U_PUSH}, false);
    if (T) {
        waiting<Small, 1>("8B", ST_STACK, false, 3, 2, 4, all, true); waiting<E, 2>("16B", ST_HEAP, false, 3, 2, 4, all, true); waiting<E, 3>("16B", ST_QHEAP, false, 2, 2, 6, all, true);
        waiting<Small, 1>("8B", ST_QSTACK, true, 2, 2, 3, all, true); waiting<Elem<1024>, 3>("1KB view", ST_HEAP, false, 3, 1, 5, {U_PUSH, U_DBF2, U_BULK2}, true);
    }
}
MC_MAIN(setup)
