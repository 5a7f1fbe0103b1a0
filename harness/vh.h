/* Harness support: scenarios are read from a file, each one runs in a forked child which appends
 * JSON events to shared memory; the parent writes one JSON array per scenario. A child that dies
 * or hangs leaves a final crash/hang event, which no specification allows. */
#ifndef VH_H
#define VH_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/types.h>
#include <time.h>
#include <errno.h>

#define VH_BUF (64u<<20)
static char *vh_shm;              /* [0..7] length, then text */
static char **vh_lines; static int vh_nlines, vh_pos, vh_end;
static char *vh_argv[4096]; static int vh_argc;

static void vh_append(const char *s, size_t n){
  size_t len = *(size_t*)vh_shm;
  if (len + n + 16 > VH_BUF) { _exit(99); }
  memcpy(vh_shm + 8 + len, s, n);
  *(volatile size_t*)vh_shm = len + n;
}
/* event text is built in a private buffer, then published at once */
static __thread char *vh_eb; static __thread size_t vh_el, vh_ec;
static void vh_p(const char *fmt, ...){
  va_list a; 
  if (!vh_eb) { vh_ec = 1u<<16; vh_eb = mmap(0, 32u<<20, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); vh_ec = 32u<<20; }
  va_start(a, fmt);
  int n = vsnprintf(vh_eb + vh_el, vh_ec - vh_el, fmt, a);
  va_end(a);
  if (n < 0 || vh_el + n >= vh_ec) _exit(98);
  vh_el += n;
}
/* begin/finish an event: {"e":"name" ... } */
static void vh_b(const char *name){ vh_el = 0; vh_p("{\"e\":\"%s\"", name); }
static void vh_f(void){
  vh_p("}");
  size_t len = *(size_t*)vh_shm;
  if (len) vh_append(",", 1);
  vh_append(vh_eb, vh_el); vh_el = 0;
}
static void vh_int(const char *k, long v){ vh_p(",\"%s\":%ld", k, v); }
static void vh_bool(const char *k, int v){ vh_p(",\"%s\":%s", k, v ? "true" : "false"); }
static void vh_rle(const void *data, size_t n){
  const unsigned char *p = data; size_t i = 0; int first = 1;
  vh_p("[");
  while (i < n) { size_t j = i; while (j < n && p[j] == p[i]) j++;
    vh_p("%s[%u,%lu]", first ? "" : ",", p[i], (unsigned long)(j - i)); first = 0; i = j; }
  vh_p("]");
}
static void vh_str_(const char *s, size_t n){   /* JSON string; bytes outside ASCII printables as \u00xx */
  vh_p("\"");
  for (size_t i = 0; i < n; i++) { unsigned char c = s[i];
    if (c == '"' || c == '\\') vh_p("\\%c", c);
    else if (c < 32 || c > 126) vh_p("\\u%04x", c);
    else vh_p("%c", c); }
  vh_p("\"");
}
static void vh_strn(const char *k, const char *s, size_t n){ vh_p(",\"%s\":", k); vh_str_(s, n); }
static void vh_str(const char *k, const char *s){ vh_strn(k, s ? s : "", s ? strlen(s) : 0); }
static void vh_bytes(const char *k, const void *d, size_t n){ vh_p(",\"%s\":", k); vh_rle(d, n); }

/* next command of the scenario; arguments split at spaces */
static int vh_next(void){
  static char *copy = NULL;
  if (vh_pos >= vh_end) return 0;
  copy = strdup(vh_lines[vh_pos++]);
  vh_argc = 0;
  for (char *t = strtok(copy, " "); t && vh_argc < 4096; t = strtok(NULL, " ")) vh_argv[vh_argc++] = t;
  return 1;
}
static int vh_is(const char *c){ return strcmp(vh_argv[0], c) == 0; }
static long vh_i(int n){ return n < vh_argc ? atol(vh_argv[n]) : 0; }
static const char *vh_a(int n){ return n < vh_argc ? vh_argv[n] : ""; }
/* hex argument -> bytes (NUL terminated); "-" is empty.  Also accepts runs "hh*count" separated by '.' */
static int vh_hexv(int c){ return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static char *vh_hex(const char *s, size_t *n){
  size_t cap = strlen(s) + 1, len = 0; char *o;
  for (const char *p = s; *p; p++) if (*p == '*') cap += strtoul(p + 1, NULL, 10);
  o = malloc(cap + 1);
  if (strcmp(s, "-")) {
    while (*s) {
      if (*s == '.') { s++; continue; }
      int v = vh_hexv(s[0]) * 16 + vh_hexv(s[1]); s += 2;
      size_t rep = 1;
      if (*s == '*') { char *e; rep = strtoul(s + 1, &e, 10); s = e; }
      memset(o + len, v, rep); len += rep;
    }
  }
  o[len] = 0; if (n) *n = len;
  return o;
}
static char *vh_s(int n){ return vh_hex(vh_a(n), NULL); }

static int vh_main(int argc, char **argv, void (*scenario)(void)){
  if (argc < 3) { fprintf(stderr, "usage: in out\n"); return 2; }
  FILE *f = fopen(argv[1], "r"); if (!f) return 2;
  FILE *o = fopen(argv[2], "w"); if (!o) return 2;
  int cap = 1024; vh_lines = malloc(cap * sizeof(char*));
  char *line = NULL; size_t lc = 0; ssize_t r;
  while ((r = getline(&line, &lc, f)) > 0) {
    if (line[r-1] == '\n') line[r-1] = 0;
    if (vh_nlines == cap) { cap *= 2; vh_lines = realloc(vh_lines, cap * sizeof(char*)); }
    vh_lines[vh_nlines++] = strdup(line);
  }
  fclose(f);
  vh_shm = mmap(0, VH_BUF, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  int to = getenv("VH_TIMEOUT") ? atoi(getenv("VH_TIMEOUT")) : 20;
  for (int i = 0; i < vh_nlines; i++) {
    if (vh_lines[i][0] == 'S' && (vh_lines[i][1] == ' ' || !vh_lines[i][1])) {
      int e = i + 1; while (e < vh_nlines && strcmp(vh_lines[e], "E")) e++;
      vh_pos = i + 1; vh_end = e;
      *(size_t*)vh_shm = 0;
      fflush(o);
      pid_t pid = fork();
      if (pid == 0) {
        signal(SIGALRM, SIG_DFL); signal(SIGPIPE, SIG_IGN);
        setpgid(0, 0);
        alarm(to);
        scenario();
        _exit(0);
      }
      int st = 0;
      while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
      kill(-pid, SIGKILL);
      size_t len = *(size_t*)vh_shm;
      fputc('[', o);
      fwrite(vh_shm + 8, 1, len, o);
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        int hang = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
        fprintf(o, "%s{\"e\":\"%s\",\"sig\":%d,\"code\":%d}", len ? "," : "", hang ? "hang" : "crash", WIFSIGNALED(st) ? WTERMSIG(st) : 0,
                WIFEXITED(st) ? WEXITSTATUS(st) : 0);
      }
      fprintf(o, "]\n");
      if (len) madvise(vh_shm, VH_BUF, MADV_REMOVE);
      i = e;
    }
  }
  fclose(o);
  return 0;
}
#endif
