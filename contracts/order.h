/* total-order lemma shared by the C11 units: given the six comparison results of a triple */
#ifndef ORDER_H
#define ORDER_H
static inline int sgn (int v) { return ((v > 0) - (v < 0)); }
#define ORDER_LAWS(XY, YX, YZ, XZ, XX) do { \
  mv_assert ((XX) == 0, "a key equals itself"); \
  mv_assert (sgn (XY) == -sgn (YX), "comparison is antisymmetric"); \
  mv_assert (!((XY) <= 0 && (YZ) <= 0) || (XZ) <= 0, "comparison is transitive"); \
  mv_assert (!((XY) == 0 && (YZ) == 0) || (XZ) == 0, "equality is transitive"); \
  mv_assert (!((XY) < 0 && (YZ) <= 0) || (XZ) < 0, "strict order is transitive"); \
  mv_assert (!((XY) == 0) || sgn (YZ) == sgn (XZ), "equal keys compare alike with every key"); \
} while (0)
#endif
