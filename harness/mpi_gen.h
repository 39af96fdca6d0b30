// how the ranks of a distributed run are scheduled
#ifndef MPI_GEN_H
#define MPI_GEN_H
#include "ten.h"
namespace tn {
inline mpisim::Options gen_world(pbt::Src &s, int least) {
  mpisim::Options o;
  o.ranks = s.chance(1, 2) ? (int) s.range(least, 3) : (int) s.big(least, 7, 16);
  o.mode = (int) s.below(5);
  o.seed = s.below(1 << 20);
  o.sync = (int) s.below(5);
  static const char *MODE[5] = {"lowest rank first", "random", "highest rank first", "sticky", "one rank starved"};
  s.note << ", " << o.ranks << " ranks, " << MODE[o.mode] << " seed " << o.seed << (o.sync == 0 ? ", buffered" : o.sync == 4 ? ", synchronous" : ", partly synchronous") << " sends";
  s.label(o.ranks == 1 ? "1 rank" : o.ranks == 2 ? "2 ranks" : o.ranks <= 4 ? "3-4 ranks" : o.ranks <= 7 ? "5-7 ranks" : "8-16 ranks");
  return o;
}
}  // namespace tn
#endif
