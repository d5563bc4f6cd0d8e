// geometry::centroid of a container when point.h and centroid.h are both included.  usage: geometry_both OUT
#include "vf.h"
#include <cassert>
#include <vector>
#include "ristra/geometry/point.h"
#include "ristra/geometry/centroid.h"
using namespace vf;
int main(int, char ** argv)
{
  using P = ristra::geometry::point<double, 2>; std::vector<P> v{{0, 0}, {6, 0}, {6, 6}, {0, 12}};
  auto c = ristra::geometry::centroid(v); auto s = ristra::geometry::centroid(v[0], v[1], v[2], v[3]);
  out o(argv[1]);
  for (auto & x : {s, c}) { rec e; e.s("f", "centroid2").raw("p", "[[0,0],[6,0],[6,6],[0,12]]").a("r", std::vector<long>{enc(x[0], 324), enc(x[1], 324)}).i("k", 324); o(e); }
}
