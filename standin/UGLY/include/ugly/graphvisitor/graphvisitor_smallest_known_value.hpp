#ifndef UGLY_STANDIN_GV_Smallest_HPP
#define UGLY_STANDIN_GV_Smallest_HPP
#include "graphvisitor.hpp"
namespace ugly {
class GraphVisitorSmallestKnownValue : public GraphVisitorBase_ {
 public:
  GraphVisitorSmallestKnownValue() : GraphVisitorBase_(false) {}
};
}
#endif
