/* C18: references of a loaded document lead to the node that carries the index, whatever the indexes are */
//@ unit load harness=h_refs functions=mr_set_crossrefs(mr_load.c) kind=bounded bound="documents of at most 3 nodes; all indexes, references, flags, types, targets and allocation outcomes" timeout=400 unwind=6 unwindset=memset.0:200 objbits=10 defs="-DSRC_LOAD -DN=3"
//@ unit xdr harness=h_refs functions=mr_set_crossrefs(xdr.c) kind=bounded bound="documents of at most 3 nodes; all references, flags, types and targets" timeout=400 unwind=6 objbits=10 defs="-DSRC_XDR -DN=3"
//@ unit yaml harness=h_yaml functions=add_missed_crossrefs,yaml_read_idx kind=bounded bound="documents of at most 3 nodes; all indexes and references" timeout=400 unwind=6 objbits=10 defs="-DSRC_YAML -DN=3"
//@ unit manyload harness=h_refs functions=mr_set_crossrefs(mr_load.c) kind=native bound="random documents of 12 nodes" defs="-DSRC_LOAD -DN=12" secs=4
//@ unit manyxdr harness=h_refs functions=mr_set_crossrefs(xdr.c) kind=native bound="random documents of 12 nodes" defs="-DSRC_XDR -DN=12" secs=4
//@ unit value harness=h_value functions=mr_value_to_idx kind=proof defs="-DSRC_LOAD -DN=3"
//@ unit intref harness=h_intref functions=mr_load_pointer_postponed,mr_load_string replace=mr_load kind=proof timeout=200 unwind=6 objbits=10 defs="-DSRC_LOAD -DN=3"
//@ unit docs harness=h_docs functions=mr_load,mr_cinit_load,mr_scm_load,mr_xml1_load,mr_xml2_load,mr_yaml_load,mr_json_load kind=native bound="random documents of one structure in every text format" defs="-DDOCS -DN=3" secs=8
#include "mv.h"
#define MV_NO_MESSAGE_STUB
#include "stubs.h"
#include "mem.h"
static unsigned g_warned;
#if MV_CBMC
//@ trusted mr_message() is assumed to return and to leave program data unchanged
void mr_message (const char * file_name, const char * func_name, int line, mr_log_level_t log_level, mr_message_id_t message_id, ...) { g_warned++; }
#endif
static void count_message (const char * f, const char * g, int l, mr_log_level_t ll, mr_message_id_t id, va_list args) { g_warned++; }
#if defined (SRC_LOAD)
#if MV_CBMC
mr_status_t mr_load (void * data, mr_fd_t * fdp, mr_idx_t idx, mr_ra_ptrdes_t * p)
__CPROVER_requires (false)                       /* a reference loads no node */
__CPROVER_assigns ()
__CPROVER_ensures (true);
#endif
#include "mr_load.c"
#elif defined (SRC_XDR)
#include "xdr.c"
#elif defined (SRC_YAML)
#include "yaml_load.c"
#endif
#ifdef DOCS
#if !MV_CBMC
TYPEDEF_STRUCT (mv_r_t, (int, a), (int, b), (int *, p), (int *, q), (char *, s), (char *, u))
static unsigned long long pick_long (void)
{
  unsigned r = mv_u8 () % 16;
  if (r < 8) return (1000 + mv_u8 () % 5);
  if (r == 8) return (0);
  unsigned long long low = r & 1 ? 1000 + mv_u8 () % 5 : 0xffffffffull - mv_u8 () % 3;
  return (r < 11 ? low : low + ((unsigned long long)mv_u8 () << 32) + (r == 15 ? 0x8000000000000000ull : 0));
}
static const char * const key[] = { "ref", "ref_content", "ref_idx" };
static char * mark (int fmt, int what, unsigned long long v)
{
  static char buf[8][64]; static int n; char * b = buf[n++ % 8]; *b = 0;
  if (what < 0) return (b);
  if (fmt == 0) sprintf (b, "/* %s = %llu */ ", key[what], v);
  if (fmt == 1) sprintf (b, ";(%s . %llu)\n", key[what], v);
  if (fmt == 2) sprintf (b, " %s=\"%llu\"", key[what], v);
  if (fmt == 3) sprintf (b, "%c%s_%llu ", what == 2 ? '&' : '*', what == 1 ? key[1] : key[2], v);
  return (b);
}
#endif
void h_docs (void)
{
#if !MV_CBMC
  mem_init (); mem_never_fail = true; mr_conf.msg_handler = count_message;
  char doc[1024]; mv_r_t x; memset (&x, 0, sizeof (x));
  unsigned long long id[3], ref[3]; int kind[3];
  for (int i = 0; i < 3; i++) { id[i] = pick_long (); ref[i] = pick_long (); kind[i] = i == 2 || mv_u8 () % 4 == 0 ? 1 : 0; if (i == 2 && mv_bool ()) kind[i] = 0; }
  for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) if (id[i] == id[j]) mv_skip ();
  int fmt = mv_u8 () % 5; mr_status_t st = MR_FAILURE;
  switch (fmt)
    {
    case 0:
      sprintf (doc, "{ .a = %s1, .b = %s2, .p = %sNULL, .q = %sNULL, .s = %s\"str\", .u = %sNULL }", mark (0, 2, id[0]), mark (0, 2, id[1]), mark (0, kind[0], ref[0]), mark (0, kind[1], ref[1]), mark (0, 2, id[2]), mark (0, kind[2], ref[2]));
      st = MR_LOAD_CINIT (mv_r_t, doc, &x); break;
    case 1:
      sprintf (doc, "(\n%s(a . 1)\n%s(b . 2)\n%s(p . nil)\n%s(q . nil)\n%s(s . \"str\")\n%s(u . nil))", mark (1, 2, id[0]), mark (1, 2, id[1]), mark (1, kind[0], ref[0]), mark (1, kind[1], ref[1]), mark (1, 2, id[2]), mark (1, kind[2], ref[2]));
      st = MR_LOAD_SCM (mv_r_t, doc, &x); break;
    case 2: case 4:
      sprintf (doc, "<?xml version=\"1.0\"?>\n<mv_r_t><a%s>1</a><b%s>2</b><p%s/><q%s/><s%s>str</s><u%s/></mv_r_t>", mark (2, 2, id[0]), mark (2, 2, id[1]), mark (2, kind[0], ref[0]), mark (2, kind[1], ref[1]), mark (2, 2, id[2]), mark (2, kind[2], ref[2]));
      if (fmt == 2) st = MR_LOAD_XML1 (mv_r_t, doc, &x);
      else st = MR_LOAD_XML2 (mv_r_t, doc, &x);
      break;
    case 3:
      sprintf (doc, "---\na: %s1\nb: %s2\np: %s\nq: %s\ns: %sstr\nu: %s\n...\n", mark (3, 2, id[0]), mark (3, 2, id[1]), mark (3, kind[0], ref[0]), mark (3, kind[1], ref[1]), mark (3, 2, id[2]), mark (3, kind[2], ref[2]));
      st = MR_LOAD_YAML (mv_r_t, doc, &x); break;
    }
  if (st != MR_SUCCESS) fprintf (stderr, "%s\n", doc);
  mv_assert (st == MR_SUCCESS, "the document loads");
  mv_assert (x.a == 1 && x.b == 2 && x.s != NULL && 0 == strcmp (x.s, "str"), "values load");
  for (int i = 0; i < 3; i++)
    {
      void * got = i == 0 ? (void *)x.p : i == 1 ? (void *)x.q : (void *)x.u, * want = NULL;
      for (int j = 0; j < 3; j++) if (id[j] == ref[i] && id[j] != 0 && id[j] >> 32 == 0)
	want = kind[i] ? (j == 2 ? x.s : NULL) : j == 0 ? (void *)&x.a : j == 1 ? (void *)&x.b : (void *)&x.s;
      mv_assert (got == want, "a reference leads to the node carrying the index, or nowhere");
    }
  free (x.s);
#endif
  MV_REACHED ();
}
#endif
#ifndef DOCS
static mr_idx_t pick_idx (void)
{
#if MV_CBMC
  return (mv_u32 ());
#else
  static const mr_idx_t odd[] = { 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffffeu, 1000000, N, N + 1 };
  unsigned r = mv_u8 ();
  return (r < 250 ? r % (N + 2) : odd[mv_u8 () % 7]);
#endif
}
static mr_ra_ptrdes_t ptrs;
static void * slot[N + 1]; static char tag[N + 1][8]; static bool small[N + 1];
static void make_nodes (void)
{
  mr_ptrdes_t * ra = mv_malloc ((N + 1) * sizeof (*ra)); mv_assume (ra != NULL);
  MV_NATIVE (memset (ra, 0, (N + 1) * sizeof (*ra)); mr_conf.msg_handler = count_message;)
  memset (&ptrs, 0, sizeof (ptrs));
  ptrs.ra = ra; ptrs.size = ptrs.alloc_size = (N + 1) * sizeof (*ra);
  ra[0].idx = 0; ra[0].flags = 0; ra[0].data.ptr = NULL; ra[0].first_child = 0; ra[0].mr_type = 0;
  for (unsigned i = 1; i <= N; i++)
    {
      slot[i] = &tag[i][1];
      ra[i].idx = pick_idx (); ra[i].first_child = pick_idx (); ra[i].flags = mv_u8 () & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE | MR_IS_REFERENCED | MR_IS_UNNAMED | MR_IS_NULL);
      static const mr_type_t types[] = { MR_TYPE_POINTER, MR_TYPE_STRING, MR_TYPE_STRUCT, MR_TYPE_CHAR, MR_TYPE_NONE, MR_TYPE_INT32 };
      uint8_t t = mv_u8 () % 6; ra[i].mr_type = t == 0 ? MR_TYPE_POINTER : t == 1 ? MR_TYPE_STRING : t == 2 ? MR_TYPE_STRUCT : t == 3 ? MR_TYPE_CHAR : t == 4 ? MR_TYPE_NONE : MR_TYPE_INT32;
      (void)types;
      small[i] = ra[i].mr_type == MR_TYPE_CHAR || ra[i].mr_type == MR_TYPE_INT32;
      ra[i].data.ptr = mv_u8 () % 4 == 0 ? NULL : small[i] ? (void *)&tag[i][7] : (void *)&slot[i];   /* a small node has less than a pointer behind it */
    }
}
#if defined (SRC_LOAD) || defined (SRC_XDR)
static mr_ptrdes_t old[N + 1];
void h_refs (void)
{
  mem_init ();
  make_nodes ();
  for (unsigned i = 0; i <= N; i++) { old[i].idx = ptrs.ra[i].idx; old[i].first_child = ptrs.ra[i].first_child; old[i].flags = ptrs.ra[i].flags; old[i].mr_type = ptrs.ra[i].mr_type; old[i].data.ptr = ptrs.ra[i].data.ptr; }
  g_warned = 0;
  mr_status_t st = mr_set_crossrefs (&ptrs);
  unsigned bad = 0;
#define IS_REF(i) (ptrs.ra[i].flags & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE))
#define IS_PTR(i) (ptrs.ra[i].mr_type == MR_TYPE_POINTER || ptrs.ra[i].mr_type == MR_TYPE_STRING)
  for (unsigned i = 1; i <= N; i++)
    {
      mv_assert (ptrs.ra[i].idx == old[i].idx && ptrs.ra[i].first_child == old[i].first_child && ptrs.ra[i].flags == old[i].flags && ptrs.ra[i].mr_type == old[i].mr_type, "nodes stay as they are");
      if (small[i]) { bad += IS_REF (i) ? 1 : 0; continue; }
      void * initial = &tag[i][1];
      if (!IS_REF (i) || !IS_PTR (i) || ptrs.ra[i].data.ptr == NULL)
	{
	  mv_assert (slot[i] == initial, "only targets of references are written");
	  bad += IS_REF (i) ? 1 : 0;
	  continue;
	}
      bool found = false, matched = false, unknown = false; unsigned carriers = 0;
#ifdef SRC_LOAD
#define CARRIES(j) (ptrs.ra[j].idx == ptrs.ra[i].first_child && ptrs.ra[j].idx != MR_NULL_IDX)
      if (st != MR_SUCCESS) { mv_assert (mem_failed && slot[i] == initial, "only an allocation failure fails, and it writes nothing"); continue; }
#else
#define CARRIES(j) ((j) == ptrs.ra[i].first_child)                    /* in XDR a node carries its position */
#endif
      for (unsigned j = 1; j <= N; j++)
	if (CARRIES (j))
	  {
	    carriers++;
	    if (ptrs.ra[i].flags & MR_IS_CONTENT_REFERENCE)
	      {
		if (ptrs.ra[j].data.ptr == NULL || !IS_PTR (j)) { matched |= slot[i] == initial || (ptrs.ra[j].data.ptr == NULL && slot[i] == NULL); bad++; }
		else { unknown |= IS_REF (j) || j == i; matched |= slot[i] == &tag[j][1]; }
	      }
	    else matched |= slot[i] == ptrs.ra[j].data.ptr;
	  }
      found = carriers > 0;
      if (!found) { mv_assert (slot[i] == initial, "a reference to an index no node carries leaves its target untouched"); bad++; }
      else mv_assert (matched || unknown, "a reference that resolves receives the address of the node carrying the index");
    }
#ifdef SRC_LOAD
  if (st == MR_SUCCESS && bad) mv_assert (g_warned > 0, "an unresolved reference is reported");
#else
  if (bad) mv_assert (g_warned > 0 && st != MR_SUCCESS, "an unresolved reference is reported");
  else mv_assert (st == MR_SUCCESS, "references that resolve are no failure");
#endif
  MV_REACHED ();
}
#endif
#if defined (SRC_YAML)
/* an anchor that is missing is added to the node at that position, and only to it */
void h_yaml (void)
{
  mem_init ();
  make_nodes ();
  static mr_idx_t old[N + 1], oldref[N + 1];
  for (unsigned i = 0; i <= N; i++) { old[i] = ptrs.ra[i].idx; oldref[i] = ptrs.ra[i].first_child; }
  add_missed_crossrefs (&ptrs);
  for (unsigned i = 0; i <= N; i++)
    {
      mv_assert (ptrs.ra[i].first_child == oldref[i], "references stay");
      bool wanted = false;
      for (unsigned j = 1; j <= N; j++)
	wanted |= ptrs.ra[j].first_child == i && (ptrs.ra[j].flags & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE));
      bool carried = false; for (unsigned j = 1; j <= N; j++) carried |= old[j] == i;
      if (old[i] != MR_NULL_IDX || !wanted || carried || mem_failed) mv_assert (ptrs.ra[i].idx == old[i], "indexes that are present stay");
      else mv_assert (ptrs.ra[i].idx == i, "a missing index is the position of the node");
    }
  MV_REACHED ();
}
#endif
#if defined (SRC_LOAD)
void h_value (void)
{
  mr_uintmax_t v = mv_u128 ();
  MV_NATIVE (if (mv_bool ()) v >>= mv_u8 () % 128;)
  mr_idx_t idx = mr_value_to_idx (v);
  mv_assert (v >> 32 ? idx == MR_NULL_IDX : idx == v, "a value that is no index becomes the index of no node");
  MV_REACHED ();
}
/* a number in place of a pointer is a reference (positive) or a reference to content (negative) */
void h_intref (void)
{
  mem_init ();
  make_nodes ();
  mr_intmax_t v = mv_u128 ();
  MV_NATIVE (if (mv_bool ()) v >>= mv_u8 () % 128;)
  slot[1] = &tag[1][1]; ptrs.ra[1].data.ptr = &slot[1]; ptrs.ra[1].flags &= ~(MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE | MR_IS_NULL);
  ptrs.ra[1].value_type = MR_VT_INT; ptrs.ra[1].first_child = 0;
  memcpy (&ptrs.ra[1].load_params.vt_int, &v, sizeof (v));
  bool str = mv_bool ();
  ptrs.ra[1].mr_type = str ? MR_TYPE_STRING : MR_TYPE_POINTER;
  mr_status_t st = str ? mr_load_string (1, &ptrs) : mr_load_pointer_postponed (1, &ptrs);
  mr_uintmax_t m = v < 0 ? -(mr_uintmax_t)v : (mr_uintmax_t)v;
  mv_assert (st == MR_SUCCESS && slot[1] == NULL && mem_allocs == 0, "a reference allocates nothing");
  mv_assert ((ptrs.ra[1].flags & (MR_IS_REFERENCE | MR_IS_CONTENT_REFERENCE)) == (v < 0 ? MR_IS_CONTENT_REFERENCE : MR_IS_REFERENCE), "kind of reference");
  mv_assert (m >> 32 ? ptrs.ra[1].first_child == MR_NULL_IDX : ptrs.ra[1].first_child == m, "index of the reference");
  MV_REACHED ();
}
#endif
#endif
