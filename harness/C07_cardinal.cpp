//@ bound: every pair (sums, products) and every triple (laws of sums) of 32-bit counts; associativity and distributivity of products for counts below 8 and open
#include "ref.h"
#include <refract/Cardinal.h>
using namespace refract;

static const unsigned OPEN = 0xFFFFFFFFu;
static cardinal any(const char* n) { return cardinal{ sym_u32(n) }; }
static cardinal small(const char* n)
{
    unsigned v = sym_u32(n);
    sym_assume((v < 8) | (v == OPEN));
    return cardinal{ v };
}
HARNESS(constants)
{
    cardinal a = any("a");
    sym_assert(cardinal::open().data() == OPEN && !finite(cardinal::open()), "open is not finite");
    sym_assert(cardinal::empty().data() == 0 && finite(cardinal::empty()) && cardinal{} == cardinal::empty(), "empty counts nothing");
    sym_assert(finite(a) == (a != cardinal::open()), "everything but open is finite");
    cardinal b = any("b");
    sym_assert((a == b) == (a.data() == b.data()) && (a != b) == (a.data() != b.data()), "equality");
    sym_reach("constants");
}
HARNESS(sum)
{
    cardinal a = any("a"), b = any("b");
    cardinal s = a + b;
    sym_observe("s", s.data());
    unsigned long long w = (unsigned long long)a.data() + b.data();
    int open = (a.data() == OPEN) | (b.data() == OPEN) | (w >= OPEN);
    sym_assert(open ? s == cardinal::open() : s.data() == w, "a sum is exact, or open when a summand is open or it cannot be represented");
    sym_assert(s == b + a, "sums commute");
    sym_assert(a + cardinal::empty() == a, "empty is neutral for sums");
    if (open) sym_reach("open sum");
    else sym_reach("finite sum");
    cardinal c = any("c");
    sym_assert((a + b) + c == a + (b + c), "sums associate");
}
HARNESS(product)
{
    cardinal a = any("a"), b = any("b");
    cardinal p = a * b;
    sym_observe("p", p.data());
    unsigned long long w = (unsigned long long)a.data() * b.data();
    int zero = (a.data() == 0) | (b.data() == 0);
    int open = !zero & ((a.data() == OPEN) | (b.data() == OPEN) | (w >= OPEN));
    sym_assert(zero ? p == cardinal::empty() : open ? p == cardinal::open() : p.data() == w,
        "a product is empty when a factor is, else open when a factor is or it cannot be represented, else exact");
    if (zero) sym_reach("empty product");
    else if (open) sym_reach("open product");
    else sym_reach("finite product");
}
HARNESS(product_laws)
{
    cardinal a = small("a"), b = small("b"), c = small("c");
    sym_assert(a * b == b * a, "products commute");
    sym_assert(a * cardinal{ 1 } == a, "one is neutral for products");
    sym_assert((a * b) * c == a * (b * c), "products associate");
    sym_assert(a * (b + c) == a * b + a * c, "products distribute over sums");
    sym_reach("laws");
}
