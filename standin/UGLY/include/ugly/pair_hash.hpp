#ifndef UGLY_STANDIN_PAIR_HASH_HPP
#define UGLY_STANDIN_PAIR_HASH_HPP
#include <cstddef>
#include <functional>
#include <utility>
namespace ugly {
namespace hash_functions {
struct hash {
  template <typename A, typename B>
  std::size_t operator()(const std::pair<A, B>& p) const {
    std::size_t h = std::hash<A>()(p.first);
    return h ^ (std::hash<B>()(p.second) + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2));
  }
};
}
}
#endif
