/* C09: one insertion or deletion takes any valid search tree to a valid one (so does every history) */
//@ unit rotate harness=h_rotate functions=mr_tree_rotate kind=bounded bound="pools of at most 8 slots; all links, positions and directions" unwind=10 objbits=8 defs="-DRB=1 -DADD=1 -DN=7 -DGRAND=0" secs=3 timeout=300
//@ unit grand harness=h_rotate functions=mr_tree_grand_rotate kind=bounded bound="pools of at most 8 slots; all links, positions and directions" unwind=10 objbits=8 defs="-DRB=1 -DADD=1 -DN=7 -DGRAND=1" timeout=300
//@ unit find harness=h_find functions=mr_tree_find kind=bounded bound="valid red-black trees of at most 3 nodes, every key" native=no unwind=10 objbits=8 defs="-DRB=1 -DADD=1 -DN=3" timeout=300
//@ unit rbadd3 harness=h_op functions=mr_rbtree_add,mr_tree_add,mr_tree_find,mr_rbtree_rebalance_add,mr_tree_rotate kind=bounded bound="every valid tree of at most 3 nodes, every key, every allocation outcome" native=no timeout=300 unwind=8 unwindset=mr_rarray_allocate_element.0:14 objbits=8 defs="-DRB=1 -DADD=1 -DN=3"
//@ unit rbadd harness=h_op functions=mr_rbtree_add,mr_tree_add,mr_tree_find,mr_rbtree_rebalance_add,mr_tree_rotate kind=native bound="random histories of red-black trees of at most 61 nodes" defs="-DRB=1 -DADD=1 -DN=60" secs=9
//@ unit rbdel3 harness=h_op functions=mr_rbtree_del,mr_tree_del,mr_tree_find,mr_rbtree_rebalance_del kind=bounded bound="every valid tree of at most 3 nodes, every key" native=no timeout=300 unwind=8 unwindset=mr_rarray_allocate_element.0:14 objbits=8 defs="-DRB=1 -DADD=0 -DN=3"
//@ unit rbdel harness=h_walk functions=mr_rbtree_del,mr_tree_del,mr_tree_find,mr_rbtree_rebalance_del,mr_tree_walk,mr_tree_next kind=native bound="random histories of red-black trees of at most 61 nodes" defs="-DRB=1 -DADD=0 -DN=60" secs=9
//@ unit avladd3 harness=h_op functions=mr_avltree_add,mr_tree_add,mr_tree_find,mr_avltree_rebalance_add,mr_tree_grand_rotate kind=bounded bound="every valid tree of at most 3 nodes, every key, every allocation outcome" native=no timeout=300 unwind=8 unwindset=mr_rarray_allocate_element.0:14 objbits=8 defs="-DRB=0 -DADD=1 -DN=3"
//@ unit avladd harness=h_op functions=mr_avltree_add,mr_tree_add,mr_tree_find,mr_avltree_rebalance_add,mr_tree_grand_rotate kind=native bound="random histories of AVL trees of at most 61 nodes" defs="-DRB=0 -DADD=1 -DN=60" secs=9
//@ unit avldel3 harness=h_op functions=mr_avltree_del,mr_tree_del,mr_tree_find,mr_avltree_rebalance_del kind=bounded bound="every valid tree of at most 3 nodes, every key" native=no timeout=300 unwind=8 unwindset=mr_rarray_allocate_element.0:14 objbits=8 defs="-DRB=0 -DADD=0 -DN=3"
//@ unit avldel harness=h_walk functions=mr_avltree_del,mr_tree_del,mr_tree_find,mr_avltree_rebalance_del,mr_tree_walk,mr_tree_next kind=native bound="random histories of AVL trees of at most 61 nodes" defs="-DRB=0 -DADD=0 -DN=60" secs=9
#include "mv.h"
#include "stubs.h"
#include "mem.h"
#include "mr_btree.c"
static mr_tree_t tree; static int g_ctx; static unsigned n;         /* n: number of nodes */
static uint8_t g_key[N + 2]; static bool g_failed;
#if MV_CBMC
//@ trusted mr_rarray_allocate_element is taken by its contract (C07): it may fail without effect, otherwise the array moves to a larger block with the old elements
void * mr_rarray_allocate_element (void ** data, ssize_t * size, ssize_t * alloc_size, size_t element_size)
{
  mv_assert (element_size == sizeof (mr_tree_node_t) && data == (void **)&tree.pool && size == &tree.size && alloc_size == &tree.alloc_size, "allocates a node");
  if (mv_bool ()) { g_failed = true; return (NULL); }
  static uint64_t raw[2 * (N + 2)]; uint64_t * old = (uint64_t *)tree.pool;
  for (unsigned i = 0; i < (N + 1) * 2; i++) if (i * 8 < tree.size) raw[i] = old[i];
  tree.pool = (mr_tree_node_t *)raw; tree.size += sizeof (mr_tree_node_t);
  return (&((char *)raw)[tree.size - sizeof (mr_tree_node_t)]);
}
#endif
static int cmp (const mr_ptr_t a, const mr_ptr_t b, const void * context)
{
  mv_assert (context == &g_ctx, "context is passed through");
  return (a.uintptr < b.uintptr ? -1 : a.uintptr > b.uintptr);
}
#ifndef GRAND
#define GRAND 0
#endif
#define KEY(i) (tree.pool[i].key.uintptr)
#define LINK(i, s) (tree.pool[i].next[s].idx)
#define RED(i) (tree.pool[i].rb.red)
static uint8_t h_[N + 3], bh_[N + 3]; static int lo_[N + 3], hi_[N + 3]; static bool in_[N + 3];
/* local rules of a valid tree, given heights h_, black heights bh_, key ranges lo_/hi_ of every node */
static bool node_ok (unsigned i)
{
  unsigned l = LINK (i, MR_LEFT), r = LINK (i, MR_RIGHT);
  if (l > n || r > n) return (false);
  if ((int)KEY (i) <= lo_[i] || (int)KEY (i) >= hi_[i]) return (false);
  if (l && (lo_[l] != lo_[i] || hi_[l] != (int)KEY (i))) return (false);
  if (r && (hi_[r] != hi_[i] || lo_[r] != (int)KEY (i))) return (false);
  if (h_[i] != 1 + (h_[l] > h_[r] ? h_[l] : h_[r])) return (false);
#if RB
  if (RED (i) && (RED (l) || RED (r))) return (false);
  return (bh_[l] == bh_[r] && bh_[i] == bh_[l] + !RED (i));
#else
  int d = (int)h_[r] - (int)h_[l];
  if (d == 0) return (tree.pool[i].avl.balanced);
  return (!tree.pool[i].avl.balanced && (d == 1 || d == -1) && tree.pool[i].avl.longer == (d == 1 ? MR_RIGHT : MR_LEFT));
#endif
}
static void check (void)
{
  unsigned links[N + 3];
  mv_assert (tree.size == (ssize_t)((n + 1) * sizeof (tree.pool[0])), "one slot per node and the sentinel");
  for (unsigned i = 0; i <= N + 1; i++) { links[i] = 0; h_[i] = bh_[i] = 0; in_[i] = false; lo_[i] = -1; hi_[i] = 256; }
  unsigned root = tree.pool->root.idx;
  mv_assert (root <= n && (root != 0) == (n > 0), "the root is a node");
  if (root) links[root]++;
  for (unsigned i = 1; i <= N + 1; i++)
    if (i <= n)
      for (unsigned s = 0; s < 2; s++)
	{
	  unsigned c = LINK (i, s);
	  mv_assert (c <= n, "links lead to nodes");
	  if (c) links[c]++;
	}
  for (unsigned i = 1; i <= N + 1; i++) if (i <= n) mv_assert (links[i] == 1, "every node is linked exactly once");
  /* heights from the leaves up, key ranges from the root down; a tree of n nodes is no higher than n */
  in_[root] = true;
#define ROUNDS (MV_CBMC ? (N <= 5 ? 4 : 5) : 12)
  for (unsigned k = 0; k < ROUNDS; k++)
    for (unsigned i = 1; i <= N + 1; i++)
      if (i <= n)
	{
	  unsigned l = LINK (i, MR_LEFT), r = LINK (i, MR_RIGHT);
	  h_[i] = 1 + (h_[l] > h_[r] ? h_[l] : h_[r]); bh_[i] = (bh_[l] > bh_[r] ? bh_[l] : bh_[r]) + !RED (i);
	  if (in_[i])
	    {
	      if (l) { in_[l] = true; lo_[l] = lo_[i]; hi_[l] = KEY (i); }
	      if (r) { in_[r] = true; hi_[r] = hi_[i]; lo_[r] = KEY (i); }
	    }
	}
  for (unsigned i = 1; i <= N + 1; i++) if (i <= n) { mv_assert (in_[i], "reached from the root within logarithmically many steps"); mv_assert (node_ok (i), "ordered and balanced"); }
#if RB
  mv_assert (!RED (0) && (n == 0 || !RED (root)), "root and sentinel are black");
#endif
}
#if MV_CBMC
/* an arbitrary valid tree of at most N nodes in arbitrary slots */
static void make (void)
{
  n = mv_u8 () % (N + 1);
  static uint64_t raw[2 * (N + 1)];   /* untyped memory: the verifier cannot assign bit-fields inside unions of typed objects */
  tree.pool = (mr_tree_node_t *)raw;
  tree.size = (n + 1) * sizeof (tree.pool[0]); tree.alloc_size = (N + 1) * sizeof (tree.pool[0]);
  unsigned root = mv_u8 () % (N + 1);
  for (unsigned i = 0; i <= N; i++)
    {
      g_key[i] = mv_u8 (); tree.pool[i].key.uintptr = g_key[i];
      tree.pool[i].next[0].idx = i ? mv_u8 () % (N + 1) : root; tree.pool[i].next[1].idx = i ? mv_u8 () % (N + 1) : 0;
      tree.pool[i].next[0].bit = i ? mv_bool () : 0; tree.pool[i].next[1].bit = i ? mv_bool () : 0;
      h_[i] = mv_u8 () % (N + 1); bh_[i] = mv_u8 () % (N + 1); lo_[i] = (int)mv_u8 () - 1; hi_[i] = 1 + (int)mv_u8 ();
    }
  mv_assume (root <= n && (root != 0) == (n > 0));
  h_[0] = bh_[0] = 0;
  if (root) { mv_assume (lo_[root] == -1 && hi_[root] == 256); }
  unsigned links[N + 1];
  for (unsigned i = 0; i <= N; i++) links[i] = i == root;
  for (unsigned i = 1; i <= N; i++)
    if (i <= n)
      {
	mv_assume (node_ok (i));
	for (unsigned s = 0; s < 2; s++) links[LINK (i, s)]++;
      }
  for (unsigned i = 1; i <= N; i++) if (i <= n) mv_assume (links[i] == 1);
#if RB
  mv_assume (!RED (0) && (n == 0 || !RED (root)));
#endif
}
#endif
static bool present (unsigned v)
{
  for (unsigned i = 1; i <= N + 1; i++) if (i <= n && KEY (i) == v) return (true);
  return (false);
}
static void op (bool add, unsigned k)
{
  mr_ptr_t key = { .uintptr = k };
  unsigned v = mv_u8 (), old_n = n;
  bool had = tree.size > 0 && present (k), had_v = tree.size > 0 && present (v);
  if (add)
    {
      mr_ptr_t * found = RB ? mr_rbtree_add (key, &tree, cmp, &g_ctx) : mr_avltree_add (key, &tree, cmp, &g_ctx);
      if (found == NULL) mv_assert (g_failed && !had, "only an allocation failure fails");
      else { mv_assert (found->uintptr == k, "the stored key is returned"); n += !had; }
      if (found == NULL && tree.size == 0) return;
      if (found) mv_assert ((void *)found >= (void *)&tree.pool[1] && (void *)found < (void *)&tree.pool[n + 1], "it is the one in the tree");
      check ();
      mv_assert (present (v) == (had_v || (v == k && found)), "exactly the new key is added");
    }
  else
    {
      mr_status_t st = RB ? mr_rbtree_del (key, &tree, cmp, &g_ctx) : mr_avltree_del (key, &tree, cmp, &g_ctx);
      mv_assert ((st == MR_SUCCESS) == had, "deletion succeeds exactly when the key is present");
      n -= had;
      if (tree.size == 0) { mv_assert (old_n == 0, "empty"); return; }
      check ();
      mv_assert (present (v) == (had_v && v != k), "exactly this key is gone");
    }
  mr_tree_traverse_t t;
  key.uintptr = v;
  mr_tree_find (key, &tree, cmp, &g_ctx, &t);
  mv_assert (t.equal == present (v), "lookup finds exactly the keys that are present");
}
void h_op (void)
{
  mem_init ();
#if MV_CBMC
  make ();
  op (ADD, mv_u8 ());
#else
  memset (&tree, 0, sizeof (tree)); n = 0; g_failed = false; mem_never_fail = true;
  unsigned steps = mv_u8 () % 64, range = 1 + mv_u8 () % (mv_bool () ? N + 1 : 40);
  for (unsigned i = 0; i < steps; i++)
    {
      unsigned k = mv_u8 () % range;
      if (!mv_bool () || n > N) op (false, k);
      else { mem_never_fail = mv_u8 () % 8; unsigned f = mem_failed; g_failed = true; op (true, k); if (mem_failed == f) mv_assert (present (k), "added"); mem_never_fail = true; }
    }
  mr_tree_free (&tree);
#endif
  MV_REACHED ();
}

/* a rotation moves one link each way and leaves everything else alone: the in-order sequence  a node (b child c)  is  (a node b) child c  */
void h_rotate (void)
{
#if MV_CBMC
  static uint64_t raw[2 * (N + 1)];
  tree.pool = (mr_tree_node_t *)raw;
#else
  static mr_tree_node_t pool_[N + 1]; tree.pool = pool_;
#endif
  uint64_t old[2 * (N + 1)];
  for (unsigned i = 0; i <= N; i++) tree.pool[i].key.uintptr = i;
  for (unsigned i = 0; i <= N; i++)
    for (unsigned s = 0; s < 2; s++)
      {
	tree.pool[i].next[s].idx = mv_u8 () & N; tree.pool[i].next[s].bit = mv_bool ();
	old[2 * i + s] = tree.pool[i].next[s].idx * 2 + tree.pool[i].next[s].bit;
      }
  mr_tree_path_t path[2];
  bool grand = GRAND; unsigned parent = mv_u8 () & N, ps = mv_bool (), c = mv_bool ();
  unsigned node = LINK (parent, ps), child = LINK (node, c), gchild = LINK (child, c ^ 1), b = LINK (gchild, c ^ 1), d = LINK (gchild, c);
  mv_assume (node && child && parent != node && parent != child && node != child);
  if (grand) mv_assume (gchild && gchild != parent && gchild != node && gchild != child);
  memset (path, 0, sizeof (path));
  path[0].idx = parent; path[0].child_idx = ps; path[1].idx = node; path[1].child_idx = mv_bool ();
  if (grand) mr_tree_grand_rotate (&tree, &path[1], c); else mr_tree_rotate (&tree, &path[1], c);
  for (unsigned i = 0; i <= N; i++)
    for (unsigned s = 0; s < 2; s++)
      {
	unsigned want = old[2 * i + s] / 2;
	if (i == parent && s == ps) want = grand ? gchild : child;
	else if (i == node && s == c) want = grand ? b : gchild;
	else if (i == child && s == (c ^ 1)) want = grand ? d : node;
	else if (grand && i == gchild) want = s == (c ^ 1) ? node : child;
	mv_assert (tree.pool[i].next[s].idx == want, "rotated links, all others unchanged");
	mv_assert (tree.pool[i].next[s].bit == (old[2 * i + s] & 1), "colours unchanged");
      }
#if MV_CBMC
  MV_REACHED ();
#else
  memset (&tree, 0, sizeof (tree));
#endif
}
void h_find (void)
{
#if MV_CBMC
  mem_init ();
  make ();
  mr_tree_traverse_t t; unsigned v = mv_u8 (); mr_ptr_t key = { .uintptr = v };
  mr_tree_find (key, &tree, cmp, &g_ctx, &t);
  unsigned size = t.size / sizeof (t.path[0]);
  mv_assert (t.equal == present (v) && size >= 1 && size <= N + 1, "found exactly when present");
  mv_assert (t.path[0].idx == 0 && t.path[0].child_idx == MR_LEFT, "the path starts at the root link");
  for (unsigned i = 0; i <= N; i++)
    if (i + 1 < size)
      {
	mv_assert (LINK (t.path[i].idx, t.path[i].child_idx) == t.path[i + 1].idx, "the path follows the links");
	if (i) mv_assert (KEY (t.path[i].idx) != v && t.path[i].child_idx == (v > KEY (t.path[i].idx) ? MR_RIGHT : MR_LEFT), "in search order");
      }
  if (t.equal) mv_assert (size >= 2 && KEY (t.path[size - 1].idx) == v, "ends at the key");
  else mv_assert (LINK (t.path[size - 1].idx, t.path[size - 1].child_idx) == 0, "ends at a missing link");
  MV_REACHED ();
#endif
}
#if !MV_CBMC
static int walk_last; static unsigned walk_count, walk_stop; static int walk_ctx;
static mr_status_t walk_visit (mr_ptr_t key, const void * context)
{
  mv_assert (context == &walk_ctx && (int)key.uintptr > walk_last, "in-order, strictly increasing");
  walk_last = key.uintptr;
  return (++walk_count == walk_stop ? MR_FAILURE : MR_SUCCESS);
}
#endif
/* histories, then in-order walks and steps from every position */
void h_walk (void)
{
#if !MV_CBMC
  mem_init (); mem_never_fail = true;
  memset (&tree, 0, sizeof (tree)); n = 0; g_failed = false;
  unsigned steps = mv_u8 () % 128, range = 1 + mv_u8 () % (mv_bool () ? N + 1 : 30), bias = 1 + mv_u8 () % 3;
  for (unsigned i = 0; i < steps; i++)
    {
      unsigned k = mv_u8 () % range;
      if (mv_u8 () % 4 < bias && n <= N) op (true, k); else op (false, k);
    }
  walk_last = -1; walk_count = 0; walk_stop = mv_u8 () % 64;
  mr_status_t st = mr_tree_walk (&tree, walk_visit, &walk_ctx);
  if (walk_stop && walk_stop <= n) mv_assert (st == MR_FAILURE && walk_count == walk_stop, "walk stops at a failure");
  else mv_assert (st == MR_SUCCESS && walk_count == n, "walk visits every key");
  unsigned v = mv_u8 () % (range + 1); int d = mv_bool () ? MR_RIGHT : MR_LEFT;
  mr_ptr_t key = { .uintptr = v }; mr_tree_traverse_t t;
  mr_tree_find (key, &tree, cmp, &g_ctx, &t);
  for (int last = (int)v, count = 0; ; count++)
    {
      int best = -1;
      for (unsigned i = 1; i <= n; i++) if ((d == MR_RIGHT ? (int)KEY (i) > last : (int)KEY (i) < last) && (best < 0 || (d == MR_RIGHT ? (int)KEY (i) < best : (int)KEY (i) > best))) best = KEY (i);
      mr_tree_next (&tree, &t, d);
      unsigned size = t.size / sizeof (t.path[0]);
      if (best < 0) { mv_assert (size <= 1, "no more keys in this direction"); break; }
      mv_assert (size > 1 && (int)KEY (t.path[size - 1].idx) == best, "step to the neighbour key");
      last = best;
    }
  mr_tree_free (&tree);
#endif
  MV_REACHED ();
}
