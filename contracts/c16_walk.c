/* C16: the walk from a union's node towards the root finds the nearest discriminator, and its answer is remembered on the way */
//@ unit walk harness=h_walk functions=mr_union_discriminator,mr_ud_find,mr_ud_add kind=native bound="3 levels of parents, 32-bit discriminators; the verifier runs out of time on the nested descriptors (other discriminator types: unit scalar)" secs=8
//@ trusted the collection of resolutions in mr_save_data returns the stored record of an equal pair or stores the new one (C08); mr_get_any_fd_by_name and mr_get_fd_by_name return a descriptor of that name or nothing
#include "mv.h"
#include "stubs.h"
#include "mem.h"
#define LEVELS 3
static uint64_t g_union_mem[sizeof (mr_td_t) / 8 + 1], g_td_mem[LEVELS][sizeof (mr_td_t) / 8 + 1];
#define g_union ((mr_td_t *)g_union_mem)
#define g_td(I) ((mr_td_t *)g_td_mem[I])
static mr_fd_t g_ufd, g_disc[LEVELS], g_branch[3]; static bool g_has[LEVELS]; static bool g_valid_name;
static char g_name[] = "disc";
#if MV_CBMC
#include <mr_ic.h>
static mr_ptr_t g_cell; static mr_save_data_t * g_sd; static int g_dup; static bool g_add_fails;
static mr_ptr_t * add_stub (mr_ic_t * ic, mr_ptr_t key)
{
  mv_assert (ic == &g_sd->union_discriminators, "the resolution is recorded once");
  if (g_add_fails) return (NULL);
  g_cell.uintptr = key.uintptr;
  if (g_dup && g_sd->mr_ra_ud[2].discriminated_fdp == g_sd->mr_ra_ud[key.uintptr].discriminated_fdp) g_cell.uintptr = 2;
  return (&g_cell);
}
static mr_ic_virt_func_t g_virt = { .add = add_stub };
mr_fd_t * mr_get_any_fd_by_name (const char * name, mr_td_t * tdp) { mv_assert (name == g_name && tdp == NULL, "discriminator name"); return (g_valid_name ? &g_disc[0] : NULL); }
mr_fd_t * mr_get_fd_by_name (mr_td_t * tdp, char * name)
{
  mv_assert (name == g_name, "looked up by the discriminator's name");
  for (int i = 0; i < LEVELS; i++) if (tdp == g_td (i)) return (g_has[i] ? &g_disc[i] : NULL);
  mv_assert (false, "only the types of the parents are asked");
  return (NULL);
}
void * mr_rarray_allocate_element (void ** ra, ssize_t * size, ssize_t * alloc_size, ssize_t element)
{
  if (mv_bool ()) return (NULL);
  void * r = (char *)*ra + *size; *size += element; return (r);
}
#endif
#include "mr_save.c"
static mr_ptrdes_t g_ra0[LEVELS + 1];
#define g_ra (g_ra0 + 1)              /* index 0 is no node */
 static uint32_t g_mem[LEVELS][4]; static mr_union_discriminator_t g_rec[8]; static mr_fd_t g_nfd[LEVELS], g_cached[2];
void h_walk (void)
{
  mr_save_data_t sd; static mr_fd_t * fields[3]; bool cached[LEVELS], other[LEVELS], usable[LEVELS]; uint32_t value[LEVELS];
  mem_init ();
  memset (&sd, 0, sizeof (sd));
  MV_NATIVE (mem_never_fail = true; memset (g_ra0, 0, sizeof (g_ra0)); memset (g_union_mem, 0, sizeof (g_union_mem)); memset (g_td_mem, 0, sizeof (g_td_mem)); memset (g_rec, 0, sizeof (g_rec)); memset (g_nfd, 0, sizeof (g_nfd)); memset (&g_ufd, 0, sizeof (g_ufd)); memset (g_disc, 0, sizeof (g_disc));)
  for (int i = 0; i < 3; i++) fields[i] = &g_branch[i];
  g_union->param.struct_param.fields = fields; g_union->param.struct_param.fields_size = sizeof (fields);
  g_ufd.stype.tdp = g_union; g_ufd.meta = g_name;
  g_rec[0].union_fdp = &g_ufd; g_rec[0].discriminated_fdp = &g_cached[0];     /* this union, resolved earlier */
  g_rec[1].union_fdp = &g_nfd[0]; g_rec[1].discriminated_fdp = &g_cached[1];  /* some other union */
  g_rec[2].union_fdp = &g_ufd; g_rec[2].discriminated_fdp = &g_branch[1];     /* this union, same answer as a later resolution may have */
  g_valid_name = mv_bool ();
  sd.ptrs.ra = g_ra0; sd.ptrs.size = sizeof (g_ra0);
  sd.mr_ra_ud_size = 3 * sizeof (g_rec[0]);
#if MV_CBMC
  sd.mr_ra_ud = g_rec; sd.mr_ra_ud_alloc_size = sizeof (g_rec); g_sd = &sd; sd.union_discriminators.virt_func = &g_virt; g_dup = mv_bool (); g_add_fails = mv_bool ();
#else
  sd.mr_ra_ud_alloc_size = 0; sd.mr_ra_ud = malloc (sd.mr_ra_ud_size); memcpy (sd.mr_ra_ud, g_rec, sd.mr_ra_ud_size); sd.mr_ra_ud_alloc_size = sd.mr_ra_ud_size;
  mr_res_t ctx = { .data = { &sd }, .type = "mr_save_data_t", .MR_SIZE = sizeof (sd) };
  mr_ic_new (&sd.union_discriminators, mr_uds_get_hash, mr_uds_cmp, "mr_union_discriminator_t", MR_IC_UNSORTED_ARRAY, &ctx);
  if (mv_bool ()) mr_ic_add (&sd.union_discriminators, (uintptr_t)2);
  mr_ic_new (&mr_conf.field_by_name, mr_fd_name_get_hash, mr_fd_name_cmp, "mr_fd_t", MR_IC_HASH, NULL);
  static mr_fd_t any; any.name.str = g_name; any.name.hash_value = mr_hash_str (g_name);
  if (g_valid_name) mr_ic_add (&mr_conf.field_by_name, &any);
#endif
  mr_idx_t node = mv_u8 () % LEVELS;
  for (int i = 0; i < LEVELS; i++)
    {
      g_ra[i].parent = i == 0 ? MR_NULL_IDX : i;
      unsigned k = mv_u8 () % 8;
      g_ra[i].mr_type = k == 0 ? MR_TYPE_ARRAY : k == 1 ? MR_TYPE_POINTER : MR_TYPE_STRUCT;
      g_ra[i].fdp = k == 2 ? NULL : &g_nfd[i];
      g_nfd[i].stype.tdp = k == 3 ? NULL : g_td (i);
      usable[i] = k > 3;
      g_has[i] = mv_bool (); cached[i] = mv_bool (); other[i] = mv_bool ();
      unsigned n = 0;
      if (other[i]) g_ra[i].save_params.ud_set.idx[n++] = 1;
      if (cached[i]) g_ra[i].save_params.ud_set.idx[n++] = 0;
      g_ra[i].save_params.ud_set.size = n * sizeof (g_ra[i].save_params.ud_set.idx[0]); g_ra[i].save_params.ud_set.is_ic = false;
      for (int j = 0; j < 4; j++) g_mem[i][j] = 0;
      value[i] = mv_u32 (); g_mem[i][i + 1] = value[i]; g_ra[i].data.ptr = g_mem[i];
      g_disc[i].stype.mr_type = MR_TYPE_UINT32; g_disc[i].offset = 4 * (i + 1); 
#if !MV_CBMC
      g_td (i)->mr_type = MR_TYPE_STRUCT; g_disc[i].name.str = g_name; g_disc[i].name.hash_value = mr_hash_str (g_name);
      mr_ic_new (&g_td (i)->param.struct_param.field_by_name, mr_fd_name_get_hash, mr_fd_name_cmp, "mr_fd_t", MR_IC_HASH, NULL);
      if (g_has[i]) mr_ic_add (&g_td (i)->param.struct_param.field_by_name, &g_disc[i]);
#endif
    }
  mr_fd_t * expected = &g_branch[0]; int stop = -1; bool from_cache = false;
  mr_fd_t * r = mr_union_discriminator (&sd, node + 1, &g_ufd);
  if (g_valid_name)
    for (int i = LEVELS - 1; i >= 0; i--)
      if (i <= (int)node && stop < 0)
	{
	  if (cached[i]) { expected = &g_cached[0]; stop = i; from_cache = true; }
	  else if (usable[i] && g_has[i]) { expected = &g_branch[value[i] < 3 ? value[i] : 0]; stop = i; }
	}
#if MV_CBMC
  mv_assert (r == expected || r == NULL, "the nearest discriminator towards the root decides, and the first branch if there is none");
  if (r == NULL) { mv_assert (g_valid_name, "failure only when something had to be recorded"); }
#else
  mv_assert (r == expected, "the nearest discriminator towards the root decides, and the first branch if there is none");
#endif
  if (r != NULL && g_valid_name)
    for (int i = 0; i < LEVELS; i++)
      if (i <= (int)node && i >= (stop < 0 ? 0 : stop))
	{
	  mr_ud_set_t * s = &g_ra[i].save_params.ud_set; bool found = false;
	  for (unsigned k = 0; k < 3; k++)
	    if (k < s->size / sizeof (s->idx[0]) && sd.mr_ra_ud[s->idx[k]].union_fdp == &g_ufd)
	      {
		mv_assert (!found && sd.mr_ra_ud[s->idx[k]].discriminated_fdp == expected, "every node on the way remembers that answer, once");
		found = true;
	      }
	  mv_assert (found, "every node on the way remembers the answer");
	}
#if !MV_CBMC
  for (int i = 0; i < LEVELS; i++) mr_ic_free (&g_td (i)->param.struct_param.field_by_name);
  mr_ic_free (&sd.union_discriminators); free (sd.mr_ra_ud); mr_ic_free (&mr_conf.field_by_name);
#endif
  MV_REACHED ();
}
