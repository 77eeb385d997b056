// A world: a set of container slots of one type driven by plan operations and
// compared, after every operation, with a small reference model.
#pragma once
#include "core.h"
#include <memory>

struct Mode
{
    bool faults = false;      // arm the faults carried by the operations
    bool misuse = false;      // out-of-range/mismatching operations allowed (no-assert semantics)
    bool emit = false;        // emit outcomes as observations
    int  opidx = 0;
};
// how large the containers of an execution are: 0 small, 1 up to 40x40, 2 long vectors, 3 more than 65536 elements
extern int g_scale;
inline size_t dim(long v, long m)
{
    static const size_t A[] = { 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 40, 12 }, B[] = { 1, 300, 2, 1, 257, 1000, 1, 64, 129, 1, 3, 520 }, C[] = { 1, 260, 300, 259, 256, 257 };
    size_t u = (size_t) (v < 0 ? -v : v);
    return g_scale == 1 ? A[u % 16] : g_scale == 2 ? B[u % 12] : g_scale == 3 ? C[u % 6] : 1 + u % (size_t) m;
}
inline size_t second(size_t r, size_t c) { return r * c > (g_scale == 3 ? 90000u : 3000u) && g_scale ? 1 : c; }
struct IWorld
{
    virtual ~IWorld() {}
    virtual void apply(const Op&, const Mode&) = 0;
    virtual void check_all(const char* when) = 0;       // every live object against the model
    virtual uint64_t bytes_held() = 0;                  // through the public interface
    virtual void destroy_all() = 0;
};
// kind: 0 matrix<double> 1 matrix<int, log> 2 matrix<uint8_t> 3 matrix<complex<double>> 4 matrix<double, log> 5 matrix<float>
//       10 array<double> 11 array<int, log> 20 bitset
IWorld* make_world(int kind, int task);
IWorld* mk_w0(int), *mk_w1(int), *mk_w2(int), *mk_w3(int), *mk_w4(int), *mk_w5(int), *mk_w10(int), *mk_w11(int), *mk_w20(int);
// random operation for a world of that kind
Op gen_world_op(Rng&, int kind, int task);
Op gen_misuse_op(Rng&, int kind, int task);
bool is_bitset_op(const std::string&);
