/* Runs monitor programs on traces, one forked child per case, so that a hang or a crash is only this case's.
   stdin: cases, each  u32 total, u32 speclen, u32 steps, u32 nsig, u32 flags, u32 dump (slots), spec, then steps*nsig*(u8 tag, 8 bytes)
   stdout: per case  u32 status (0 ok, 1 signal, 2 timeout, 3 sanitizer/exit, 4 not run: two cases before it timed out), u32 len, text
   flags: 1 report file  2 callback  4 hard reset + reload + run again  8 dump BZ slots and atomics after every step
          16 dump queue layout after loading  32 exact arenas from the 8 u32 that follow the header   64 clock reset instead */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include "internals/config.h"
#include "r2u2.h"
#include "memory/monitor.h"
#include "internals/process_binary.h"
#include "engines/engines.h"

static FILE *out;
static int rd(void *p, size_t n) { size_t k = 0; while (k < n) { ssize_t r = read(0, (char*)p + k, n - k); if (r <= 0) return 0; k += (size_t)r; } return 1; }
static r2u2_status_t cb(r2u2_mltl_instruction_t i, r2u2_verdict *v) { fprintf(out, "C %u:%u,%c\n", i.op2_value, *v & 0x7fffffffu, (*v >> 31) ? 'T' : 'F'); return R2U2_OK; }

static r2u2_monitor_t dflt = R2U2_DEFAULT_MONITOR;

static void layout(r2u2_monitor_t *m) {
  size_t n = m->mltl_program_count.max_program_count;
  fprintf(out, "P %zu %zu\n", m->bz_program_count.max_program_count, n);
  for (size_t i = 0; i < n; i++) {
    r2u2_scq_control_block_t *c = &m->queue_arena.control_blocks[i];
    fprintf(out, "Q %zu %ld %u %u %u %u %u %u\n", i, (long)(c->queue - m->queue_arena.queue_mem), c->length, c->write, c->read1, c->read2, c->next_time, c->length ? c->queue[0] : 0);
    r2u2_mltl_instruction_t *t = &m->mltl_instruction_tbl[i];
    fprintf(out, "I %zu %u %u %u %u %u %u\n", i, t->opcode, t->memory_reference, t->op1_type, t->op1_value, t->op2_type, t->op2_value);
    if (t->opcode == R2U2_MLTL_OP_UNTIL || t->opcode == R2U2_MLTL_OP_RELEASE || t->opcode == R2U2_MLTL_OP_SINCE || t->opcode == R2U2_MLTL_OP_TRIGGER) {
      r2u2_scq_temporal_block_t *b = r2u2_scq_temporal_get(m->queue_arena, (r2u2_time)i);
      fprintf(out, "B %zu %u %u %u %u\n", i, b->lower_bound, b->upper_bound, b->previous, b->edge);
    }
  }
  for (size_t i = 0; i < m->bz_program_count.max_program_count; i++) {
    r2u2_bz_instruction_t *t = &m->bz_instruction_tbl[i];
    fprintf(out, "Z %zu %u %u %u %u\n", i, t->opcode, t->memory_reference, t->param1, t->param2);
  }
}

static void trace(r2u2_monitor_t *m, unsigned steps, unsigned nsig, unsigned flags, unsigned dump, uint8_t *tr) {
  for (unsigned s = 0; s < steps; s++) {
    fprintf(out, "S %u\n", s);
    for (unsigned k = 0; k < nsig; k++) {
      uint8_t *p = tr + (s * nsig + k) * 9; int32_t i; double f; char buf[32];
      memcpy(&i, p + 1, 4); memcpy(&f, p + 1, 8);
      switch (p[0]) {
        case 0: r2u2_load_bool_signal(m, k, i != 0); break;
        case 1: r2u2_load_int_signal(m, k, i); break;
        case 2: r2u2_load_float_signal(m, k, f); break;
        case 3: snprintf(buf, sizeof buf, "%d", i); r2u2_load_string_signal(m, k, buf); break;
        case 4: snprintf(buf, sizeof buf, "%.6f", f); r2u2_load_string_signal(m, k, buf); break;
      }
    }
    r2u2_status_t r = r2u2_step(m);
    if (r != R2U2_OK && m->bz_program_count.max_program_count + m->mltl_program_count.max_program_count) fprintf(out, "ERR %d\n", r);
    if (m->time_stamp != s + 1) fprintf(out, "TS %u\n", m->time_stamp);
    if (m->mltl_program_count.curr_program_count || m->bz_program_count.curr_program_count || m->progress != R2U2_MONITOR_PROGRESS_FIRST_LOOP) fprintf(out, "PC\n");
    if (flags & 8) {
      for (unsigned k = 0; k < dump; k++) { unsigned long long x; memcpy(&x, &m->value_buffer[k], 8); fprintf(out, "V %u %llx\n", k, x); }
      for (unsigned k = 0; k < dump; k++) fprintf(out, "A %u %u\n", k, m->atomic_buffer[k]);
    }
  }
}

static void run(uint8_t *spec, unsigned steps, unsigned nsig, unsigned flags, unsigned dump, uint8_t *tr, uint32_t *ar) {
  r2u2_monitor_t *m = &dflt;
  if (flags & 32) {
    /* bz instr, tl instr, signals, atomics, value slots, queue slots, temporal ops, control blocks */
    m->bz_instruction_tbl = calloc(ar[0], sizeof(r2u2_bz_instruction_t));
    m->mltl_instruction_tbl = calloc(ar[1], sizeof(r2u2_mltl_instruction_t));
    m->signal_vector = calloc(ar[2], sizeof(r2u2_value_t));
    m->atomic_buffer = calloc(ar[3], sizeof(r2u2_bool));
    m->value_buffer = calloc(ar[4], sizeof(r2u2_value_t));
    m->queue_arena.queue_mem = calloc(ar[5] + ar[6] * (R2U2_TEMPORAL_METADATA_SIZE), sizeof(r2u2_verdict));
    m->queue_arena.control_blocks = calloc(ar[7], sizeof(r2u2_scq_control_block_t));
  }
  if (flags & 1) m->out_file = out;
  if (flags & 2) m->out_func = cb;
  r2u2_status_t r = r2u2_load_specification(spec, m);
  if (r != R2U2_OK) { fprintf(out, "LOAD %d\n", r); }
  if (flags & 16) layout(m);
  trace(m, steps, nsig, flags, dump, tr);
  if (flags & 4) {
    /* the reset must not depend on where the monitor stopped: leave it in the middle of a step */
    m->bz_program_count.curr_program_count = steps % 3; m->mltl_program_count.curr_program_count = 1 + steps % 2; m->progress = R2U2_MONITOR_PROGRESS_RELOOP_WITH_PROGRESS; m->time_stamp += steps % 5;
    r2u2_monitor_hard_reset(m);
    fprintf(out, "RESET %u %zu %zu %zu %zu\n", m->time_stamp, m->bz_program_count.curr_program_count, m->bz_program_count.max_program_count,
            m->mltl_program_count.curr_program_count, m->mltl_program_count.max_program_count);
    r = r2u2_load_specification(spec, m);
    if (r != R2U2_OK) { fprintf(out, "LOAD %d\n", r); }
    trace(m, steps, nsig, flags, dump, tr);
  }
  if (flags & 64) {
    r2u2_monitor_clock_reset(m);
    fprintf(out, "CRESET %u %zu %zu %zu %zu\n", m->time_stamp, m->bz_program_count.curr_program_count, m->bz_program_count.max_program_count,
            m->mltl_program_count.curr_program_count, m->mltl_program_count.max_program_count);
  }
  fprintf(out, "END\n");
}

int main(void) {
  uint32_t h[6]; unsigned slow = 0;
  while (rd(h, sizeof h)) {
    uint32_t speclen = h[1], steps = h[2], nsig = h[3], flags = h[4], dump = h[5], ar[8] = {0};
    if (flags & 32) rd(ar, sizeof ar);
    uint8_t *spec = malloc(speclen + 64), *tr = malloc((size_t)steps * nsig * 9 + 1);
    memset(spec + speclen, 0, 64);
    if (!rd(spec, speclen) || !rd(tr, (size_t)steps * nsig * 9)) return 1;
    if (slow >= 2) { uint32_t o[2] = { 4, 0 }; fwrite(o, sizeof o, 1, stdout); free(spec); free(tr); continue; }
    int fd[2]; if (pipe(fd)) return 1;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      close(fd[0]); struct rlimit rl = { 2, 2 }; setrlimit(RLIMIT_CPU, &rl); alarm(20); dup2(fd[1], 2);
      out = fdopen(fd[1], "w");
      run(spec, steps, nsig, flags, dump, tr, ar);
      fflush(out); _exit(0);
    }
    close(fd[1]);
    size_t cap = 1 << 16, n = 0; char *buf = malloc(cap);
    for (;;) { if (n == cap) { if (cap > (8u << 20)) break; buf = realloc(buf, cap *= 2); } ssize_t r = read(fd[0], buf + n, cap - n); if (r <= 0) break; n += (size_t)r; }
    close(fd[0]);
    int st; kill(pid, n > (8u << 20) ? SIGKILL : 0); waitpid(pid, &st, 0);
    uint32_t o[2] = { WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL ? 2u : 1u) : WEXITSTATUS(st) ? 3u : 0u, (uint32_t)n };
    slow += o[0] == 2;
    fwrite(o, sizeof o, 1, stdout); fwrite(buf, 1, n, stdout); fflush(stdout);
    free(buf); free(spec); free(tr);
  }
  return 0;
}
