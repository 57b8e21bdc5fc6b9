/* connection queues alone: text commands on stdin, results on stdout.
   N nq len..      new arena: nq queues laid out one after another, 4 guard words between them
   W q t v         write        R p c num next      read by node p (which owns queue p) of queue c's verdicts
   every line answers:  W -> status write   R -> 0 | 1 t v ;  then M <changed>: 1 if anything outside what may change has changed */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/resource.h>
#include "memory/shared_connection_queue.h"
#define MAXW 4096
#define MAXQ 64
static r2u2_scq_control_block_t cb[MAXQ + 1], ocb[MAXQ + 1];
static r2u2_verdict mem[MAXW], omem[MAXW];
int main(void) {
  char c; unsigned nq = 0; alarm(60); struct rlimit rl = { 6, 6 }; setrlimit(RLIMIT_CPU, &rl);
  r2u2_scq_arena_t ar = { cb, mem };
  while (scanf(" %c", &c) == 1) {
    if (c == 'N') {
      if (scanf("%u", &nq) != 1) return 1;
      memset(cb, 0, sizeof cb); memset(mem, 0, sizeof mem);
      unsigned k = 4;
      for (unsigned i = 0; i < k; i++) mem[i] = 0xABABABABu;
      for (unsigned i = 0; i < nq; i++) {
        unsigned l; if (scanf("%u", &l) != 1) return 1;
        cb[i].length = l; cb[i].queue = &mem[k]; mem[k] = r2u2_infinity; k += l;
        for (unsigned j = 0; j < 4; j++) mem[k++] = 0xABABABABu;
      }
      continue;
    }
    memcpy(ocb, cb, sizeof cb); memcpy(omem, mem, sizeof mem);
    if (c == 'W') {
      unsigned q, t, v; if (scanf("%u %u %u", &q, &t, &v) != 3) return 1;
      r2u2_status_t r = r2u2_scq_write(ar, q, t | (v ? 0x80000000u : 0u));
      printf("%d %u ", r, cb[q].write);
      memcpy(ocb[q].queue, cb[q].queue, sizeof(r2u2_verdict) * 0);
      for (unsigned i = 0; i < cb[q].length; i++) omem[(ocb[q].queue - mem) + i] = mem[(ocb[q].queue - mem) + i];
      ocb[q].write = cb[q].write;
    } else if (c == 'R') {
      unsigned p, ch, num, nt; if (scanf("%u %u %u %u", &p, &ch, &num, &nt) != 4) return 1;
      cb[p].next_time = ocb[p].next_time = nt;
      r2u2_verdict res = 0x12345678; int g = r2u2_scq_read(ar, p, ch, (r2u2_bool)num, &res);
      if (g) printf("1 %u %u ", res & 0x7fffffffu, res >> 31); else printf("0 ");
      if (num) ocb[p].read2 = cb[p].read2; else ocb[p].read1 = cb[p].read1;
    } else return 1;
    printf("M %d\n", memcmp(ocb, cb, sizeof cb) != 0 || memcmp(omem, mem, sizeof mem) != 0);
    fflush(stdout);
  }
  return 0;
}
