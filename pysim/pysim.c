/* The seam of the Python simulation. The callers are Python threads of which exactly one runs at a
 * time. Calls which the extension module makes to release or take the interpreter lock, to wait for
 * or wake the waiters of its own locks, and to allocate memory go through the scheduler below, which
 * follows the list of decisions of the case. The interpreter lock is part of the simulated state, so
 * that a call waiting for a lock of the extension while it holds the interpreter lock is seen. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <linux/futex.h>
#include <link.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

enum { IDLE, NEEDS_GIL, READY, FUTEX, DONE };
#define MAXT 8
#define NO_LIMIT 200000000ull

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t wake[MAXT], main_wake = PTHREAD_COND_INITIALIZER;
static int n, turn = -1, gil = -1, active, idle, pc[MAXT];
static uintptr_t on[MAXT];
static uint64_t fuel;
static const uint32_t *decs;
static int ndecs, pos;
static uint64_t stats[8]; /* decisions, switches, suspended inside the extension, lock releases, lock waits, allocations */
static __thread int me = -1;

static void die(const char *msg) {
  char b[256];
  int k = snprintf(b, sizeof b, "{\"dead\": \"%s\"}\n", msg);
  if (write(1, b, k)) {}
  _exit(7);
}
static int able(int i) { return pc[i] == READY || (pc[i] == NEEDS_GIL && gil < 0); }
/* Choose who goes on (mu is held). */
static void decide(void) {
  int c[MAXT], k = 0, live = 0, from = me;
  for (int i = 0; i < n; i++) {
    if (pc[i] != DONE) live++;
    if (able(i)) c[k++] = i;
  }
  if (!live) { turn = -1; active = 0; pthread_cond_signal(&main_wake); return; }
  if (!k && getenv("SIM_VERBOSE")) for (int i = 0; i < n; i++) fprintf(stderr, "caller %d: state %d, interpreter lock %d, turn %d\n", i, pc[i], gil, turn);
  if (!k) die("deadlock: every call that has not ended waits for another one");
  int to = 0;
  fuel = NO_LIMIT;
  if (pos < ndecs) {
    to = decs[2 * pos] % k;
    if (decs[2 * pos + 1]) fuel = decs[2 * pos + 1];
    pos++;
  } else for (int i = 0; i < k; i++) if (c[i] > from) { to = i; break; }
  stats[0]++;
  if (c[to] != from) stats[1]++;
  turn = c[to];
}
/* Give the turn away until it comes back (mu is held). */
static void hand_over(void) {
  decide();
  if (turn == me) return;
  if (turn >= 0) pthread_cond_signal(&wake[turn]);
  while (turn != me) pthread_cond_wait(&wake[me], &mu);
}
static int in_sim(void) { return me >= 0 && active; }

/* ---- called by the driver, which has released the interpreter lock around the call */
int sim_next(int id) {
  pthread_mutex_lock(&mu);
  me = id;
  if (active && pc[id] != IDLE && pc[id] != DONE) {
    pc[id] = DONE;
    if (gil == id) gil = -1;
    decide();
    if (turn >= 0) pthread_cond_signal(&wake[turn]);
  }
  idle++;
  pthread_cond_signal(&main_wake);
  while (turn != id) pthread_cond_wait(&wake[id], &mu);
  idle--;
  gil = id;
  pc[id] = READY;
  pthread_mutex_unlock(&mu);
  return 1;
}
void sim_yield(void) {
  if (!in_sim()) return;
  pthread_mutex_lock(&mu);
  gil = -1;
  pc[me] = NEEDS_GIL;
  hand_over();
  gil = me;
  pc[me] = READY;
  pthread_mutex_unlock(&mu);
}
void sim_run(int threads, int all, const uint32_t *d, int k, uint64_t *out) {
  pthread_mutex_lock(&mu);
  while (idle != all) pthread_cond_wait(&main_wake, &mu);
  n = threads; decs = d; ndecs = k; pos = 0; gil = -1;
  memset(stats, 0, sizeof stats);
  for (int i = 0; i < MAXT; i++) pc[i] = i < n ? NEEDS_GIL : DONE;
  active = 1;
  me = -1;
  decide();
  if (turn >= 0) pthread_cond_signal(&wake[turn]);
  while (active || idle != all) pthread_cond_wait(&main_wake, &mu);
  memcpy(out, stats, sizeof stats);
  pthread_mutex_unlock(&mu);
}

/* ---- called by the extension module */
static void *(*real_save)(void);
static void (*real_restore)(void *);
static void *my_save(void) {
  void *t = real_save();
  if (in_sim()) {
    pthread_mutex_lock(&mu);
    stats[3]++;
    if (gil == me) gil = -1;
    hand_over();
    pthread_mutex_unlock(&mu);
  }
  return t;
}
static void my_restore(void *t) {
  if (in_sim()) {
    pthread_mutex_lock(&mu);
    pc[me] = NEEDS_GIL;
    hand_over();
    gil = me;
    pc[me] = READY;
    pthread_mutex_unlock(&mu);
  }
  real_restore(t);
}
/* Taking the interpreter lock if it is not held already. */
static int (*real_ensure)(void);
static void (*real_release)(int);
static __thread unsigned taken, levels;
static int my_ensure(void) {
  if (in_sim()) {
    pthread_mutex_lock(&mu);
    taken = taken << 1;
    levels++;
    if (gil != me) {
      taken |= 1;
      pc[me] = NEEDS_GIL;
      hand_over();
      gil = me;
      pc[me] = READY;
    }
    pthread_mutex_unlock(&mu);
  }
  return real_ensure();
}
static void my_release(int s) {
  real_release(s);
  if (in_sim() && levels) {
    pthread_mutex_lock(&mu);
    int t = taken & 1;
    taken >>= 1;
    levels--;
    if (t) { gil = -1; hand_over(); }
    pthread_mutex_unlock(&mu);
  }
}
static void step(void) {
  if (!in_sim()) return;
  stats[5]++;
  if (fuel > 1) { fuel--; return; }
  pthread_mutex_lock(&mu);
  int was = stats[1];
  hand_over();
  if (stats[1] != (uint64_t)was) stats[2]++;
  pthread_mutex_unlock(&mu);
}
static void *my_malloc(size_t k) { step(); return malloc(k); }
static void *my_calloc(size_t a, size_t b) { step(); return calloc(a, b); }
static void *my_realloc(void *p, size_t k) { step(); return realloc(p, k); }
static int my_sched_yield(void) { if (in_sim()) fuel = 1; step(); return 0; }
static long my_syscall(long nr, long a, long b, long c, long d, long e, long f) {
  if (nr == SYS_futex && in_sim()) {
    int op = b & FUTEX_CMD_MASK;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      pthread_mutex_lock(&mu);
      if (*(volatile uint32_t *)a != (uint32_t)c) { pthread_mutex_unlock(&mu); errno = EAGAIN; return -1; }
      stats[4]++;
      pc[me] = d ? READY : FUTEX;
      on[me] = a;
      hand_over();
      pthread_mutex_unlock(&mu);
      if (d) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      long woken = 0;
      pthread_mutex_lock(&mu);
      for (int i = 0; i < n && woken < (int)c; i++) if (pc[i] == FUTEX && on[i] == (uintptr_t)a) { pc[i] = READY; woken++; }
      pthread_mutex_unlock(&mu);
      return woken;
    }
  }
  return syscall(nr, a, b, c, d, e, f);
}

/* ---- put the seam under a loaded module */
static struct { const char *name; void *to; void **real; } seam[] = {
  {"PyEval_SaveThread", (void *)my_save, (void **)&real_save}, {"PyEval_RestoreThread", (void *)my_restore, (void **)&real_restore},
  {"PyGILState_Ensure", (void *)my_ensure, (void **)&real_ensure}, {"PyGILState_Release", (void *)my_release, (void **)&real_release},
  {"malloc", (void *)my_malloc, 0}, {"calloc", (void *)my_calloc, 0}, {"realloc", (void *)my_realloc, 0},
  {"sched_yield", (void *)my_sched_yield, 0}, {"syscall", (void *)my_syscall, 0},
};
static int patched;
static int patch(struct dl_phdr_info *i, size_t size, void *want) {
  (void)size;
  if (!i->dlpi_name || !strstr(i->dlpi_name, want)) return 0;
  ElfW(Dyn) *d = 0;
  uintptr_t ro = 0, ro_len = 0, base = i->dlpi_addr;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    if (i->dlpi_phdr[k].p_type == PT_DYNAMIC) d = (ElfW(Dyn) *)(base + i->dlpi_phdr[k].p_vaddr);
    if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { ro = base + i->dlpi_phdr[k].p_vaddr; ro_len = i->dlpi_phdr[k].p_memsz; }
  }
  if (!d) return 0;
  uintptr_t sym = 0, str = 0, tab[2] = {0, 0}, len[2] = {0, 0};
  for (; d->d_tag != DT_NULL; d++) {
    uintptr_t p = d->d_un.d_ptr, at = p < base ? p + base : p;
    switch (d->d_tag) {
      case DT_SYMTAB: sym = at; break;
      case DT_STRTAB: str = at; break;
      case DT_RELA: tab[0] = at; break;
      case DT_RELASZ: len[0] = p; break;
      case DT_JMPREL: tab[1] = at; break;
      case DT_PLTRELSZ: len[1] = p; break;
    }
  }
  if (ro) {
    uintptr_t a = ro & ~4095ul, b = (ro + ro_len + 4095) & ~4095ul;
    if (mprotect((void *)a, b - a, PROT_READ | PROT_WRITE)) { perror("mprotect"); return 0; }
  }
  for (int t = 0; t < 2; t++) for (uintptr_t o = 0; o + sizeof(ElfW(Rela)) <= len[t]; o += sizeof(ElfW(Rela))) {
    ElfW(Rela) *r = (ElfW(Rela) *)(tab[t] + o);
    unsigned type = ELF64_R_TYPE(r->r_info);
    if (type != R_X86_64_GLOB_DAT && type != R_X86_64_JUMP_SLOT && type != R_X86_64_64) continue;
    const char *name = (const char *)str + ((ElfW(Sym) *)sym)[ELF64_R_SYM(r->r_info)].st_name;
    void **slot = (void **)(base + r->r_offset);
    for (unsigned k = 0; k < sizeof seam / sizeof *seam; k++) if (!strcmp(name, seam[k].name)) {
      if (seam[k].real) *seam[k].real = *slot;
      *slot = seam[k].to;
      patched++;
    }
  }
  return 0;
}
int sim_patch(const char *module) {
  for (int i = 0; i < MAXT; i++) pthread_cond_init(&wake[i], 0);
  dl_iterate_phdr(patch, (void *)module);
  return patched;
}
