#pragma once
#include <atomic>
#include <utility>
#include <vector>
namespace fxi {
extern std::atomic<int> on;
struct Report {
    struct C { int lib; long n; const char* first; std::vector<int> locks; };
    std::vector<C> calls;
    std::vector<std::pair<int, int>> edges;
    int selfLock;
};
int heldNow();
void failAt(long n);
int wasHit();
void reset();
Report report();
} // namespace fxi
