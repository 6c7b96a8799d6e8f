// C24: a process may create any number of pins. A few are kept, very many are created and
// dropped (as every simulation cycle does), and none of those may equal a kept one.
#include <algorithm>
#include <chrono>
#include "adevs/adevs.h"
#include "pbt.h"
using pbt::Ctx;
using pbt::Src;
double adevs::double_fcmp::epsilon = 1e-9;
using adevs::pin_t;

static void prop(Src &s, Ctx &ctx) {
    uint64_t gap;
    switch (s.weighted({3, 3, 3, 2})) {
        case 0: gap = s.range(1, 5000); break;
        case 1: gap = 65536 + (uint64_t)s.range(0, 300); break;
        case 2: gap = (1ull << 24) + (uint64_t)s.range(0, 300); break;
        default: gap = (1ull << 32) + (uint64_t)s.range(0, 300);
    }
    int const K = 4;
    pin_t kept[K];
    adevs::PinValue<int> held(kept[0], 1);
    std::vector<pin_t> sample;
    uint64_t const every = gap / 64 + 1;
    uint64_t same = 0, first = 0;
    for (uint64_t i = 0; i < gap; i++) {
        pin_t p;
        bool e = (p == kept[0]) | (p == kept[1]) | (p == kept[2]) | (p == kept[3]);
        if (e && same++ == 0) first = i;
        if (i % every == 0) sample.push_back(p);
    }
    NOTE(ctx, gap << " pins are created and dropped");
    CHECK(same == 0, "after creating " << first << " more pins a new one equals a pin that is still in use (" << same
                                       << " of " << gap << " do)");
    for (int i = 0; i < K; i++) sample.push_back(kept[i]);
    std::sort(sample.begin(), sample.end());
    for (size_t i = 0; i + 1 < sample.size(); i++)
        CHECK(sample[i] != sample[i + 1], "two of the pins that were kept are equal");
    CHECK(held.pin == kept[0], "an event lost its pin");
    ctx.nontrivial(gap > 4000);
    if (gap > (1ull << 32)) ctx.label("more than 2^32 pins");
    else if (gap > (1ull << 24)) ctx.label("more than 2^24 pins");
}
PBT_MAIN(prop)
