/* Native driver for the harnesses: replay of a recorded input list, or seeded search. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <unistd.h>
#include <time.h>
#include <sys/mman.h>
#include <fcntl.h>

#define MAXIN 65536
static struct { uint64_t n; uint64_t in[MAXIN]; } * rec;
static uint64_t * seq; static size_t nseq;
static uint64_t rng;
static jmp_buf jb;
static int replaying;
static void * blocks[4096]; static int nblocks;
int mv_keep_blocks; /* set by a harness whose code under test may free the blocks: leak them instead */

static uint64_t rnd (void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 0x2545F4914F6CDD1DULL; }
static int small_mode;
static uint64_t pool[8];
uint64_t mv_u64 (void)
{
  uint64_t v;
  if (replaying) v = rec->n < nseq ? seq[rec->n] : 0;
  else
    {
      static const uint64_t special[] = { 0, 1, 2, 3, 7, 8, 9, 10, 13, '"', '\\', '&', '<', '>', '0', '9', 'x', 'u', 'n', '-', '+', '.', ' ', '[', ']', ';', '#', 'a', 'A', 'F',
	127, 128, 129, 255, 256, 32767, 32768, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0x7fffffffffffffff, 0x8000000000000000, -1ULL, -2ULL };
      uint64_t r = rnd () >> 11;
      if (small_mode == 1) v = (r >> 8) % 6;
      else switch (r % 8)
	{
	case 0: case 1: v = special[(r >> 8) % (sizeof (special) / sizeof (special[0]))]; break;
	case 2: v = (r >> 8) % 17; break;
	case 3: v = (r >> 8) % 130; break;
	case 4: v = 1ULL << ((r >> 8) % 64); break;
	case 5: v = pool[(r >> 8) % 8]; break;
	case 6: v = rnd () >> ((r >> 8) % 64); break;
	default: v = rnd (); break;
	}
      pool[rnd () >> 61] = v;
    }
  if (rec->n < MAXIN) rec->in[rec->n++] = v;
  return (v);
}
void mv_skip (void) { longjmp (jb, 1); }
void mv_fail (const char * msg, const char * file, int line)
{
  printf ("REPRODUCED: %s (%s:%d)\n", msg, file, line);
  fflush (stdout);
  _exit (99);
}
void * mv_malloc (size_t n)
{
  void * p = malloc (n ? n : 0);
  if (nblocks < 4096) blocks[nblocks++] = p;
  return (p);
}
#include <signal.h>
static void on_alarm (int s) { static const char m[] = "REPRODUCED: the call does not return within 10 s\n"; if (write (1, m, sizeof (m) - 1)) {} _exit (97); }
extern void MV_HARNESS (void);
int main (int argc, char ** argv)
{
  /* argv: rec-file replay seqfile | rec-file search seed seconds */
  int fd = open (argv[1], O_RDWR | O_CREAT | O_TRUNC, 0600);
  if (fd < 0 || ftruncate (fd, sizeof (*rec))) return (2);
  rec = mmap (0, sizeof (*rec), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (!strcmp (argv[2], "replay"))
    {
      FILE * f = fopen (argv[3], "r"); unsigned long long x;
      seq = calloc (MAXIN, sizeof (*seq)); replaying = 1;
      if (!f) return (2);
      while (nseq < MAXIN && fscanf (f, "%llu", &x) == 1) seq[nseq++] = x;
      signal (SIGALRM, on_alarm); alarm (10);
      if (!setjmp (jb)) { MV_HARNESS (); printf ("NOT-REPRODUCED\n"); return (0); }
      printf ("SKIPPED (precondition does not hold)\n");
      return (0);
    }
  uint64_t seed = strtoull (argv[3], 0, 10); double secs = atof (argv[4]);
  struct timespec t0, t; clock_gettime (CLOCK_MONOTONIC, &t0);
  unsigned long runs = 0, skipped = 0;
  static int it;
  for (it = 0; ; it++)
    {
      rng = (seed + 1) * 0x9E3779B97F4A7C15ULL ^ ((uint64_t)it * 0xD1B54A32D192ED03ULL); if (!rng) rng = 1; rnd (); rnd ();
      small_mode = it % 3; memset (pool, 0, sizeof (pool));
      rec->n = 0; nblocks = 0;
      if ((it & 15) == 0) { signal (SIGALRM, on_alarm); alarm (10); }
      if (!setjmp (jb)) { MV_HARNESS (); runs++; } else skipped++;
      for (int i = 0; i < nblocks && !mv_keep_blocks; i++) free (blocks[i]);
      clock_gettime (CLOCK_MONOTONIC, &t);
      if (t.tv_sec - t0.tv_sec + (t.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break;
    }
  printf ("SEARCH runs=%lu skipped=%lu\n", runs, skipped);
  return (0);
}
