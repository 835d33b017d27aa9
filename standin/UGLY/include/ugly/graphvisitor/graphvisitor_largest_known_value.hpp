#ifndef UGLY_STANDIN_GV_Largest_HPP
#define UGLY_STANDIN_GV_Largest_HPP
#include "graphvisitor.hpp"
namespace ugly {
class GraphVisitorLargestKnownValue : public GraphVisitorBase_ {
 public:
  GraphVisitorLargestKnownValue() : GraphVisitorBase_(true) {}
};
}
#endif
