/* Files sent by the export handler and by the file shortcut, over a scripted transport. */
#include "http_core.h"
#include <onion/handlers/exportlocal.h>
#include <onion/mime.h>
#include <sys/sendfile.h>
#include <utime.h>
extern int onion_use_sendfile; ssize_t onion_http_write(onion_request *req, const char *d, size_t n);
static char root[200];
static struct { int id; size_t n; unsigned char *d; } F[64]; static int nf;
static unsigned char fb(int id, long i){ return (i % 251) * (i % 241) + (i / 251) * 31 + id * 37 + i; }
static char *xb; static size_t xn; static int failed; static char *mimetext; static size_t mimen; static long shrink = -1;
static ssize_t t_take(int c, const char *d, size_t n){
  if (c < 0 || c >= MAXC || C[c].dead) { ev("wdead", c); evf(); errno = EBADF; return -1; }
  if (wpos < wn) { long w = wscript[wpos++];
    if (w <= 0) { failed = 1; errno = EPIPE; return w == 0 ? 0 : -1; }
    if ((size_t)w < n) n = w; }
  memcpy(xb + xn, d, n); xn += n; return n;
}
static ssize_t f_write(onion_request *req, const char *d, size_t n){ return t_take(conn_of(req), d, n); }
static void f_close(onion_request *req){ C[conn_of(req)].dead = 1; }
ssize_t __real_write(int fd, const void *d, size_t n);
ssize_t __wrap_write(int fd, const void *d, size_t n){ return fd >= 1000 ? t_take(fd - 1000, d, n) : __real_write(fd, d, n); }
ssize_t __real_read(int fd, void *d, size_t n);
ssize_t __wrap_read(int fd, void *d, size_t n){
  if (shrink < 0) return __real_read(fd, d, n);
  if (n > (size_t)shrink) { failed = 1; n = shrink; }
  ssize_t r = n ? __real_read(fd, d, n) : 0; shrink -= r; return r;
}
ssize_t __real_sendfile(int o, int i, off_t *p, size_t n);
ssize_t __wrap_sendfile(int o, int i, off_t *p, size_t n){
  if (o < 1000) return __real_sendfile(o, i, p, n);
  char *b = malloc(n); ssize_t r = p ? pread(i, b, n, *p) : __real_read(i, b, n);
  if (shrink >= 0) { if (r > shrink) { failed = 1; lseek(i, shrink - r, SEEK_CUR); r = shrink; } shrink -= r; }
  if (r > 0) { ssize_t w = t_take(o - 1000, b, r); if (!p) lseek(i, (w < 0 ? 0 : w) - r, SEEK_CUR); else if (w > 0) *p += w; r = w; }
  free(b); return r;
}
FILE *__real_fopen(const char *p, const char *m);
FILE *__wrap_fopen(const char *p, const char *m){
  if (!strcmp(p, "/etc/mime.types")) return mimetext ? fmemopen(mimetext, mimen, "r") : NULL;
  return __real_fopen(p, m);
}
static char *at(const char *p){ static char b[4096]; snprintf(b, sizeof b, "%s/%s", root, p); return b; }
static void names(const char *k, const char *p){
  vh_p(",\"%s\":[", k); int first = 1;
  while (*p) { const char *e = strchrnul(p, '/'); if (e > p) { vh_p(first ? "" : ","); flatv(p, e - p); first = 0; } p = *e ? e + 1 : e; }
  vh_p("]");
}
static char *sfile;
static onion_connection_status sfile_h(void *p, onion_request *req, onion_response *res){ return onion_shortcut_response_file(at(sfile), req, res); }
static void run_of(const char *d, size_t n){
  int first = 1; size_t i = 0, lit = 0;
  vh_p("[");
  while (i < n) {
    size_t best = 0; int bf = -1; long bo = 0;
    if (n - i >= 128) for (int f = 0; f < nf; f++) {
      unsigned char *q = F[f].d, *e = q + F[f].n;
      while (e - q >= 128 && (q = memmem(q, e - q, d + i, 128))) {
        size_t k = 0, o = q - F[f].d; while (i + k < n && o + k < F[f].n && (unsigned char)d[i + k] == q[k]) k++;
        if (k > best) { best = k; bf = F[f].id; bo = o; }
        if (i + k == n) break;
        q++; }
    }
    if (best || i + 1 == n) {
      if (!best) i++;
      if (i > lit) { vh_p("%s{\"f\":-1,\"o\":0,\"n\":0,\"b\":", first ? "" : ","); flatv(d + lit, i - lit > 6000 ? 6000 : i - lit); vh_p("}"); first = 0; }
      if (best) { vh_p("%s{\"f\":%d,\"o\":%ld,\"n\":%ld,\"b\":[]}", first ? "" : ",", bf, bo, (long)best); first = 0; i += best; lit = i; }
    } else i++;
  }
  vh_p("]");
}
static size_t dechunk(char *d, size_t n, int *ok){
  size_t o = 0, i = 0; *ok = 1;
  for (;;) {
    char *e = NULL; if (i >= n) { *ok = 0; return o; }
    size_t k = strtoul(d + i, &e, 16);
    if (e == d + i || e + 2 > d + n || e[0] != '\r' || e[1] != '\n') { *ok = 0; return o; }
    i = e + 2 - d; if (i + k + 2 > n) { *ok = 0; return o; }
    memmove(d + o, d + i, k); o += k; i += k + 2;
    if (!k) { if (i != n) *ok = 0; return o; }
  }
}
static int nc = 0;
static void scenario(void){
  strcpy(root, "/tmp/vpfXXXXXX"); if (getcwd(root, 150)) strcat(root, "/fXXXXXX"); if (!mkdtemp(root)) _exit(97);
  xb = mmap(0, 64 << 20, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  mc_on = 0; core_new(); LP->write = f_write; LP->close = f_close; onion_use_sendfile = 0; 
  int warm = 0; onion_handler *h = NULL;
  while (vh_next()) {
    size_t n; 
    if (vh_is("mkdir")) { char *p = vh_s(1); mkdir(at(p), 0755); vh_b("mkdir"); names("p", p); vh_f(); }
    else if (vh_is("mkfile")) { char *p = vh_s(1); int id = vh_i(2); size_t sz = vh_i(3);
      F[nf].id = id; F[nf].n = sz; F[nf].d = malloc(sz + 1); for (size_t i = 0; i < sz; i++) F[nf].d[i] = fb(id, i);
      FILE *f = __real_fopen(at(p), "w"); fwrite(F[nf].d, 1, sz, f); fclose(f); nf++;
      struct utimbuf u = { vh_i(4), vh_i(4) }; utime(at(p), &u);
      vh_b("mkfile"); names("p", p); vh_int("id", id); vh_int("size", sz); vh_int("mtime", vh_i(4)); vh_f(); }
    else if (vh_is("mklink")) { char *p = vh_s(1), *to = vh_s(2); char t[4096];
      if (*to == '/') snprintf(t, sizeof t, "%s%s", root, to); else snprintf(t, sizeof t, "%s", to);
      if (symlink(t, at(p))) continue; vh_b("mklink"); names("p", p); flats("to", to); vh_f(); }
    else if (vh_is("mkfifo")) { char *p = vh_s(1); mkfifo(at(p), 0644); vh_b("mkfifo"); names("p", p); vh_f(); }
    else if (vh_is("mime")) { mimetext = vh_hex(vh_a(1), &mimen); if (!mimen) mimetext = NULL; onion_mime_set(NULL); onion_mime_get("x"); vh_b("mime"); flat("t", mimetext, mimen); vh_f(); }
    else if (vh_is("mimeup")) { char *a = vh_s(1), *b = vh_s(2); onion_mime_update(a, *b ? b : NULL); vh_b("mimeup"); flats("k", a); flats("v", b); vh_f(); }
    else if (vh_is("export") || vh_is("sfile")) { int ex = vh_is("export"); char *p = vh_s(1);
      if (ex) { h = onion_handler_export_local_new(at(p)); vh_b("export"); names("p", p); vh_bool("ok", h != NULL); vh_f(); if (!h) break; }
      else { sfile = p; h = onion_handler_new(sfile_h, NULL, NULL); vh_b("sfile"); names("p", p); vh_f(); }
      onion_set_root_handler(O, h); }
    else if (vh_is("sendfile")) { LP->write = (void*)onion_http_write; onion_use_sendfile = 1; }
    else if (vh_is("w")) { wn = wpos = 0; for (int i = 1; i < vh_argc; i++) wscript[wn++] = atol(vh_argv[i]); }
    else if (vh_is("shrink")) { shrink = vh_i(1); }
    else if (vh_is("req")) {
      if (!warm) { warm = 1; onion_mime_get("x"); char keep[1]; C[62].req = NULL; cur = 62; onion_request *r = onion_request_new(LP); C[62].req = r;
        long sv = shrink, sw = wn; shrink = -1; wn = 0;
        C[62].in = "GET / HTTP/1.0\r\n\r\n"; C[62].n = 18; C[62].pos = 0; LP->read_ready(r); onion_request_free(r); memset(&C[62], 0, sizeof C[62]); in_ = 0; xn = 0; shrink = sv; wn = sw; failed = 0;
        base_fds = nfds(); mc_reset(); (void)keep; }
      static char tag[300]; char *d0 = vh_hex(vh_a(1), &n), *d = malloc(n * 20 + 1000), *o = d;
      for (char *q = d0; q < d0 + n;) if (!strncmp(q, "@ETAG@", 6)) { o = stpcpy(o, tag); q += 6; } else *o++ = *q++;
      n = o - d; *o = 0; int c = nc++ % 60; memset(&C[c], 0, sizeof C[c]); cur = c; xn = 0; failed = 0; wpos = 0;
      mc_on = 1;
      C[c].req = onion_request_new(LP); C[c].in = d; C[c].n = n; C[c].pos = 0;
      int r = 0; while (C[c].pos < n && r >= 0) r = LP->read_ready(C[c].req);
      onion_request_free(C[c].req); C[c].req = NULL; in_ = 0;
      mc_on = 0; shrink = -1; wn = wpos = 0;
      char *e = memmem(xb, xn, "\r\n\r\n", 4); size_t hn = e ? e + 4 - xb : xn;
      vh_b("resp"); flat("req", d, n); flat("head", xb, hn); vh_bool("werr", failed); vh_bool("open", r >= 0);
      size_t bn = xn - hn; int ok = 1; 
      if (!failed && strncmp(d, "HEAD", 4) && memmem(xb, hn, "Transfer-Encoding: chunked", 26)) { xb[xn] = 0; bn = dechunk(xb + hn, bn, &ok); }
      char *te = memmem(xb, hn, "\r\nEtag: ", 8); if (te) { te += 8; size_t k = 0; while (te[k] != '\r' && k < 299) { tag[k] = te[k]; k++; } tag[k] = 0; }
      vh_bool("framed", ok); vh_p(",\"body\":"); run_of(xb + hn, bn); vh_f();
      free(d);
    }
    else if (vh_is("end")) { vh_b("end"); vh_int("live", mc_live()); vh_int("fds", warm ? nfds() - base_fds : 0); vh_f(); }
  }
  char cmd[400]; snprintf(cmd, sizeof cmd, "rm -rf -- '%s'", root); if (system(cmd)) {}
}
int main(int argc, char **argv){ return vh_main(argc, argv, scenario); }
