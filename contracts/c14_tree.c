/* C14: links of serialization trees */
//@ unit append harness=h_append functions=mr_add_child,mr_last_child_for_parent kind=bounded bound="all trees of at most 5 nodes, all cursors, all children and parents" timeout=300 unwind=8 objbits=10 defs="-DADD -DN=5"
//@ unit chain harness=h_chain enforce=mr_add_child replace=mr_last_child_for_parent kind=proof timeout=200 defs="-DADD -DCHAIN -DN=5"
//@ unit list harness=h_list functions=mr_add_ptr_to_list kind=proof timeout=200 objbits=10 unwind=6 defs="-DADD -DN=5"
//@ unit dfs harness=h_dfs functions=mr_ptrs_dfs_impl kind=bounded bound="all trees of at most 4 nodes, all starting nodes, all points of failure" timeout=400 unwind=7 unwindset=mr_ptrs_dfs_impl.0:5,mr_ptrs_dfs_impl.1:9 objbits=10 defs="-DDFS -DN=4"
//@ unit bigtrees harness=h_big functions=mr_add_child,mr_last_child_for_parent,mr_ptrs_dfs_impl kind=native bound="random append histories of up to 40 nodes" defs="-DDFS -DN=40" secs=4
//@ unit saved harness=h_saved functions=mr_save,mr_save_pointer_content,move_nodes_to_parent,mr_add_child kind=native bound="random graphs of up to 8 objects with overlapping resizable pointers" defs="-DSAVED -DN=40" secs=10
#include "mv.h"
#include "stubs.h"
#include "mem.h"
static mr_ra_ptrdes_t ptrs; static mr_ptrdes_t ra_[N + 2];
#ifdef CHAIN
#if MV_CBMC
static mr_idx_t g_parent, g_child, g_last, g_old_first;
mr_idx_t mr_last_child_for_parent (mr_ra_ptrdes_t * p, mr_idx_t parent)
__CPROVER_requires (parent == g_parent)
__CPROVER_assigns (p->last_child)
__CPROVER_ensures (__CPROVER_return_value == g_last);
void mr_add_child (mr_ra_ptrdes_t * p, mr_idx_t parent, mr_idx_t child)
/* frame: only the child, the cursor, and the one link that has to lead to the child */
__CPROVER_assigns (p->last_child, p->ra[child].parent, p->ra[child].next; parent != 0 && g_old_first == 0: p->ra[parent].first_child; parent != 0 && g_old_first != 0: p->ra[g_last].next)
__CPROVER_ensures (p->ra[child].parent == parent && p->ra[child].next == MR_NULL_IDX && p->last_child == child)
__CPROVER_ensures (parent == 0 || g_old_first != 0 || p->ra[parent].first_child == child)
__CPROVER_ensures (parent == 0 || g_old_first == 0 || p->ra[g_last].next == child);
#endif
#endif
#if MV_CBMC
#define MV_IN_METARESC_C
#endif
#if defined (ADD)
#include "metaresc.c"
#elif defined (DFS)
#include "mr_save.c"
#elif !MV_CBMC
TYPEDEF_STRUCT (mv_n_t, (struct mv_n_t *, p, , , { .offset = offsetof (mv_n_t, size) }, "offset"), (unsigned, size), (int, v), (struct mv_n_t *, q))
#include "mr_save.c"
#endif
static mr_idx_t g_parent_of[N + 2], g_first[N + 2], g_next[N + 2]; static uint8_t g_rank[N + 2], g_depth[N + 2];
/* an arbitrary well-linked forest on the nodes 1..N (0 is no node): node 1 is a root; siblings in arbitrary order */
static void make_tree (void)
{
  memset (&ptrs, 0, sizeof (ptrs)); memset (ra_, 0, sizeof (ra_));
  ptrs.ra = ra_; ptrs.size = (N + 1) * sizeof (ra_[0]); ptrs.alloc_size = sizeof (ra_);
  for (unsigned i = 1; i <= N; i++)
    {
      g_parent_of[i] = i == 1 ? 0 : mv_u8 () % (N + 1); g_rank[i] = mv_u8 () % (N + 1); g_depth[i] = mv_u8 () % (N + 1);
      MV_NATIVE (if (i > 1) g_parent_of[i] %= i; g_rank[i] = i; g_depth[i] = g_parent_of[i] ? 1 + g_depth[g_parent_of[i]] : 0;)
    }
  for (unsigned i = 1; i <= N; i++)
    {
      if (g_parent_of[i]) mv_assume (g_depth[i] == 1 + g_depth[g_parent_of[i]]); else mv_assume (g_depth[i] == 0);
      for (unsigned j = 1; j < i; j++) mv_assume (g_rank[i] != g_rank[j]);
    }
  for (unsigned i = 0; i <= N; i++)
    {
      g_first[i] = g_next[i] = 0;
      for (unsigned j = 1; j <= N; j++)
	{
	  if (i > 0 && g_parent_of[j] == i && (g_first[i] == 0 || g_rank[j] < g_rank[g_first[i]])) g_first[i] = j;
	  if (i > 0 && g_parent_of[i] != 0 && g_parent_of[j] == g_parent_of[i] && g_rank[j] > g_rank[i] && (g_next[i] == 0 || g_rank[j] < g_rank[g_next[i]])) g_next[i] = j;
	}
      ptrs.ra[i].parent = g_parent_of[i]; ptrs.ra[i].first_child = g_first[i]; ptrs.ra[i].next = g_next[i];
    }
}
#ifdef ADD
void h_append (void)
{
  mem_init ();
  make_tree ();
  mr_idx_t p = mv_u8 () % (N + 1), c = 1 + mv_u8 () % N, last = 0;
  ptrs.last_child = mv_u8 () % (N + 1);
  mv_assume (g_parent_of[c] == 0 && c != p);
  for (mr_idx_t a = p; a != 0; a = g_parent_of[a]) mv_assume (a != c);       /* the child is not an ancestor of its new parent */
  if (p) for (unsigned i = 1; i <= N; i++) if (g_parent_of[i] == p && g_next[i] == 0) last = i;
  if (mv_bool ())
    {
      mr_idx_t got = mr_last_child_for_parent (&ptrs, p);
      mv_assert (got == last, "the last child is found wherever the cursor is");
      for (unsigned i = 1; i <= N; i++) mv_assert (ptrs.ra[i].parent == g_parent_of[i] && ptrs.ra[i].first_child == g_first[i] && ptrs.ra[i].next == g_next[i], "looking up changes nothing");
    }
  ptrs.ra[c].next = g_next[c] = mv_bool () ? 0 : 1 + mv_u8 () % N;                 /* a detached node may still point at its former sibling */
  mr_add_child (&ptrs, p, c);
  mv_assert (ptrs.ra[c].parent == p && ptrs.ra[c].first_child == g_first[c], "the child knows its parent and keeps its own children");
  if (p) mv_assert (ptrs.ra[c].next == MR_NULL_IDX, "the child is the last one");
  if (p && last == 0) mv_assert (ptrs.ra[p].first_child == c, "the only child is the first child");
  if (p && last) mv_assert (ptrs.ra[last].next == c, "the former last child is followed by the new one");
  for (unsigned i = 1; i <= N; i++)
    if (i != c)
      {
	mv_assert (ptrs.ra[i].parent == g_parent_of[i], "no other parent changes");
	mv_assert (ptrs.ra[i].first_child == g_first[i] || (i == p && g_first[i] == 0), "no other first child changes");
	mv_assert (ptrs.ra[i].next == g_next[i] || i == last, "no other sibling changes");
      }
  mv_assert (ptrs.ra == ra_ && ptrs.size == (N + 1) * sizeof (ra_[0]) && ptrs.last_child <= N, "the array stays");
  MV_REACHED ();
}
void h_chain (void)
{
#if MV_CBMC && defined (CHAIN)
  g_parent = mv_u8 () % (N + 1); g_child = 1 + mv_u8 () % N; g_last = mv_u8 () % (N + 1);
  ptrs.ra = ra_; ptrs.size = (N + 1) * sizeof (ra_[0]);
  for (unsigned i = 0; i <= N; i++) { ra_[i].parent = mv_u32 (); ra_[i].first_child = mv_u32 (); ra_[i].next = mv_u32 (); }
  g_old_first = ra_[g_parent].first_child;
  mv_assume (g_parent != g_child && g_last != g_child && (g_parent == 0 || (g_old_first != 0) == (g_last != 0)));
  mr_add_child (&ptrs, g_parent, g_child);
#else
  h_append ();
#endif
  MV_REACHED ();
}
/* a new node is empty: it is linked to nothing */
void h_list (void)
{
  mem_init ();
  static mr_ptrdes_t * blk; static mr_ra_ptrdes_t p; memset (&p, 0, sizeof (p));
  unsigned n = mv_u8 () % 4; blk = NULL;
  if (n) { blk = malloc (4 * sizeof (*blk)); mv_assume (blk != NULL); memset (blk, 0x5a, 4 * sizeof (*blk)); p.alloc_size = mv_bool () ? 4 * sizeof (*blk) : n * sizeof (*blk); }
  p.ra = blk; p.size = n * sizeof (*blk);
  mr_idx_t idx = mr_add_ptr_to_list (&p);
  if (idx == MR_NULL_IDX && n > 0) mv_assert (mem_failed, "only an allocation failure adds no node");
  if (idx != MR_NULL_IDX || (n == 0 && p.ra))
    {
      mv_assert (idx == n && p.size == (ssize_t)((n + 1) * sizeof (*blk)), "one node more");
      mv_assert (p.ra[n].parent == 0 && p.ra[n].first_child == 0 && p.ra[n].next == 0 && p.ra[n].flags == 0 && p.ra[n].fdp == NULL && p.ra[n].data.ptr == NULL, "the node is empty");
    }
  free (p.ra);
  MV_REACHED ();
}
#endif
#if defined (DFS)
static unsigned g_pre[N + 2], g_post[N + 2], g_calls, g_fail_at, g_clock; static mr_idx_t g_start; static int g_ctx; static bool g_ref[N + 2], g_inside[N + 2];
static mr_status_t visit (mr_ra_ptrdes_t * p, mr_idx_t idx, int level, mr_dfs_order_t order, void * context)
{
  mv_assert (p == &ptrs && context == &g_ctx, "context is passed through");
  mv_assert (g_calls != g_fail_at, "the walk stops at the first failure");
  mv_assert (idx >= 1 && idx <= N && g_inside[idx], "only nodes of the tree are visited");
  mv_assert (level == g_depth[idx] - g_depth[g_start], "level is the distance from the start");
  if (order == MR_DFS_PRE_ORDER) { mv_assert (g_pre[idx] == 0, "entered once"); g_pre[idx] = ++g_clock; }
  else { mv_assert (order == MR_DFS_POST_ORDER && g_post[idx] == 0 && g_pre[idx] != 0, "left once, after it was entered"); g_post[idx] = ++g_clock; }
  return (++g_calls == g_fail_at ? MR_FAILURE : MR_SUCCESS);
}
static void walk (void)
{
  for (unsigned i = 0; i <= N; i++)
    {
      g_pre[i] = g_post[i] = 0; g_inside[i] = false;
      g_ref[i] = i > 0 && g_first[i] == 0 && mv_u8 () % 4 == 0;              /* a reference leads elsewhere and has no children */
      if (g_ref[i]) { ptrs.ra[i].first_child = 1 + mv_u8 () % N; ptrs.ra[i].flags |= mv_bool () ? MR_IS_REFERENCE : MR_IS_CONTENT_REFERENCE; }
    }
  g_start = 1 + mv_u8 () % N; g_calls = g_clock = 0; g_fail_at = mv_u8 () % (2 * N + 1); if (g_fail_at == 0) g_fail_at = -1;
  for (unsigned i = 1; i <= N; i++) for (mr_idx_t a = i; a != 0; a = g_parent_of[a]) if (a == g_start) g_inside[i] = true;
  unsigned count = 0; for (unsigned i = 1; i <= N; i++) count += g_inside[i];
  mr_status_t st = mr_ptrs_dfs_impl (&ptrs, visit, &g_ctx, g_start);
  if (g_fail_at <= 2 * count) { mv_assert (st == MR_FAILURE && g_calls == g_fail_at, "failure of the visitor is the failure of the walk"); return; }
  mv_assert (st == MR_SUCCESS && g_calls == 2 * count, "every node is entered once and left once");
  for (unsigned i = 1; i <= N; i++)
    if (g_inside[i])
      {
	mv_assert (g_pre[i] && g_post[i] && g_pre[i] < g_post[i], "entered before it is left");
	if (i != g_start) mv_assert (g_pre[g_parent_of[i]] < g_pre[i] && g_post[i] < g_post[g_parent_of[i]], "inside its parent");
	if (i != g_start && g_next[i]) mv_assert (g_post[i] + 1 == g_pre[g_next[i]], "siblings in order");
	if (g_first[i]) mv_assert (g_pre[i] + 1 == g_pre[g_first[i]], "children right after the parent");
      }
}
void h_dfs (void)
{
  mem_init ();
  make_tree ();
  walk ();
  MV_REACHED ();
}
/* random histories of appends (depth first, with returns to older subtrees), then a walk */
void h_big (void)
{
#if !MV_CBMC
  mem_init ();
  memset (&ptrs, 0, sizeof (ptrs)); memset (ra_, 0, sizeof (ra_));
  ptrs.ra = ra_; ptrs.size = (N + 1) * sizeof (ra_[0]); ptrs.alloc_size = sizeof (ra_);
  static mr_idx_t last[N + 2]; memset (last, 0, sizeof (last));
  memset (g_first, 0, sizeof (g_first)); memset (g_next, 0, sizeof (g_next));
  for (unsigned i = 1; i <= N; i++)
    {
      mr_idx_t p = i == 1 ? 0 : mv_u8 () % 3 ? i - 1 : 1 + mv_u8 () % (i - 1);
      g_parent_of[i] = p; g_depth[i] = p ? 1 + g_depth[p] : 0;
      if (p) { if (last[p]) g_next[last[p]] = i; else g_first[p] = i; last[p] = i; }
      if (mv_bool () && p) mv_assert (mr_last_child_for_parent (&ptrs, p) == (g_first[p] == i ? 0 : ptrs.ra[p].first_child == 0 ? 0 : ({ mr_idx_t l = ptrs.ra[p].first_child; while (ptrs.ra[l].next) l = ptrs.ra[l].next; l; })), "last child");
      mr_add_child (&ptrs, p, i);
    }
  for (unsigned i = 1; i <= N; i++) mv_assert (ptrs.ra[i].parent == g_parent_of[i] && ptrs.ra[i].first_child == g_first[i] && ptrs.ra[i].next == g_next[i], "every node is linked in order of appending");
  walk ();
#endif
  MV_REACHED ();
}
#endif
#if defined (SAVED)
#if !MV_CBMC
#define OBJS 8
static mv_n_t g_obj[OBJS]; static unsigned g_seen[4096], g_obj_nodes[OBJS]; static bool g_reach[OBJS];
static mr_status_t visit (mr_ra_ptrdes_t * p, mr_idx_t idx, int level, mr_dfs_order_t order, void * context)
{
  if (order == MR_DFS_PRE_ORDER)
    {
      mv_assert (g_seen[idx]++ == 0, "visited once");
      if (p->ra[idx].mr_type == MR_TYPE_STRUCT) for (unsigned i = 0; i < OBJS; i++) if (p->ra[idx].data.ptr == &g_obj[i]) g_obj_nodes[i]++;
    }
  return (MR_SUCCESS);
}
static void reach (unsigned i)
{
  if (g_reach[i]) return;
  g_reach[i] = true;
  if (g_obj[i].p) for (unsigned k = 0; k < g_obj[i].size / sizeof (g_obj[0]); k++) reach (g_obj[i].p - g_obj + k);
  if (g_obj[i].q) reach (g_obj[i].q - g_obj);
}
#endif
void h_saved (void)
{
#if !MV_CBMC
  mem_init (); mem_never_fail = true;
  memset (g_obj, 0, sizeof (g_obj)); memset (g_seen, 0, sizeof (g_seen)); memset (g_obj_nodes, 0, sizeof (g_obj_nodes)); memset (g_reach, 0, sizeof (g_reach));
  unsigned n = 1 + mv_u8 () % OBJS;
  for (unsigned i = 0; i < n; i++)
    {
      g_obj[i].v = i;
      if (mv_bool ())
	{
	  unsigned at = mv_u8 () % n, len = 1 + mv_u8 () % (n - at);
	  g_obj[i].p = &g_obj[at]; g_obj[i].size = len * sizeof (g_obj[0]);
	}
      if (mv_u8 () % 3 == 0) g_obj[i].q = &g_obj[mv_u8 () % n];
    }
  unsigned root = mv_u8 () % n;
  mr_fd_t fd; memset (&fd, 0, sizeof (fd)); static char name[] = "x"; fd.name.str = name;
  fd.stype.tdp = mr_get_td_by_name ("mv_n_t"); mv_assert (fd.stype.tdp != NULL, "type");
  fd.stype.mr_type = fd.stype.tdp->mr_type; fd.stype.size = sizeof (mv_n_t);
  ptrs = mr_save (&g_obj[root], &fd);
  mv_assert (ptrs.ra != NULL, "saved");
  unsigned count = ptrs.size / sizeof (ra_[0]);
  mv_assert (count < 4096 && mr_ptrs_dfs (&ptrs, visit, NULL) == MR_SUCCESS, "walk");
  for (unsigned i = 1; i < count; i++)
    {
      mv_assert (g_seen[i] == 1, "every node is reached exactly once");
      if (!(ptrs.ra[i].flags & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE)))
	for (mr_idx_t c = ptrs.ra[i].first_child; c; c = ptrs.ra[c].next) mv_assert (c < count && ptrs.ra[c].parent == i, "children know their parent");
      else mv_assert (ptrs.ra[i].first_child != 0 && ptrs.ra[i].first_child < count, "references lead to nodes");
    }
  reach (root);
  for (unsigned i = 0; i < OBJS; i++) mv_assert ((g_obj_nodes[i] > 0) == g_reach[i], "exactly the reachable objects have nodes");
  mem_release ("", "", 0, ptrs.ra);
#endif
  MV_REACHED ();
}
#endif
