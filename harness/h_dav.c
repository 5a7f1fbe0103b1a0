/* A WebDAV share in a scratch directory, used as an unprivileged user.  After each request the whole scratch tree is recorded. */
#include "http_core.h"
#include <onion/handlers/webdav.h>
#include <onion/url.h>
#include <onion/mime.h>
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <utime.h>
#include <grp.h>
#include <sys/prctl.h>
#include <ftw.h>
static char top[64], root[200]; static int rootn;
static char *xb; static size_t xn;
static ssize_t d_write(onion_request *req, const char *d, size_t n){ if (C[conn_of(req)].dead) { ev("wdead", 0); evf(); return -1; } memcpy(xb + xn, d, n); xn += n; return n; }
static void d_close(onion_request *req){ C[conn_of(req)].dead = 1; }
/* faults: the share is on another file system than the temporary files, and writing there fails or comes short */
static int exdev, crossed, serving; static long wleft = -1, wshort = 0; static int faulted;
int __real_rename(const char *a, const char *b);
int __wrap_rename(const char *a, const char *b){
  if (serving && exdev && !!strncmp(a, root, rootn) != !!strncmp(b, root, rootn)) { crossed = 1; errno = EXDEV; return -1; }
  return __real_rename(a, b);
}
ssize_t __real_write(int fd, const void *d, size_t n);
ssize_t __wrap_write(int fd, const void *d, size_t n){
  if (serving && crossed && fd < 1000) {
    if (wshort && n > (size_t)wshort) n = wshort;
    if (wleft >= 0) { if ((size_t)wleft < n) { if (!wleft) { faulted = 1; errno = ENOSPC; return -1; } n = wleft; } wleft -= n; }
  }
  return __real_write(fd, d, n);
}
int __real_chmod(const char *p, mode_t m);
int __wrap_chmod(const char *p, mode_t m){ struct stat st; if (serving && stat(p, &st) == 0 && S_ISDIR(st.st_mode)) return 0; return __real_chmod(p, m); }
static char *at(const char *p){ static char b[4096]; snprintf(b, sizeof b, "%s/%s", root, p); return b; }
static void names(const char *p){
  vh_p("["); int first = 1;
  while (*p) { const char *e = strchrnul(p, '/'); if (e > p) { vh_p(first ? "" : ","); flatv(p, e - p); first = 0; } p = *e ? e + 1 : e; }
  vh_p("]");
}
static int tfirst;
static int tnode(const char *p, const struct stat *st, int f, struct FTW *w){
  vh_p(tfirst ? "{\"p\":" : ",{\"p\":"); tfirst = 0; names(p + rootn);
  char sz[32]; snprintf(sz, 32, "%ld", (long)st->st_size); char b[70000]; ssize_t n = 0; const char *t = "other";
  if (S_ISDIR(st->st_mode)) t = "dir";
  else if (S_ISLNK(st->st_mode)) { t = "link"; n = readlink(p, b, sizeof b); if (n > rootn && !strncmp(b, root, rootn)) { memmove(b, b + rootn, n - rootn); n -= rootn; } }
  else if (S_ISREG(st->st_mode)) { t = "file"; int fd = open(p, O_RDONLY); if (fd >= 0) { n = read(fd, b, st->st_size > 65536 ? 1 : sizeof b); close(fd); } }
  vh_str("t", t); flat("d", b, n < 0 ? 0 : n); vh_int("x", S_ISREG(st->st_mode) && (st->st_mode & 0111)); flats("sz", sz); vh_int("m", S_ISREG(st->st_mode) ? st->st_mtime : 0); vh_p("}");
  return 0;
}
static void tree(void){ vh_p(",\"tree\":["); tfirst = 1; nftw(root, tnode, 30, FTW_PHYS); vh_p("]"); }
static int dav(xmlNode *n, const char *name){ return n->type == XML_ELEMENT_NODE && !strcmp((char*)n->name, name) && n->ns && !strcmp((char*)n->ns->href, "DAV:"); }
static void multi(const char *d, size_t n){
  xmlDocPtr doc = n ? xmlReadMemory(d, n, "x", NULL, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET) : NULL;
  xmlNode *r = doc ? xmlDocGetRootElement(doc) : NULL;
  vh_bool("xml", r && dav(r, "multistatus")); vh_p(",\"multi\":["); int f1 = 1;
  if (r) for (xmlNode *q = r->children; q; q = q->next) if (dav(q, "response")) {
    xmlChar *href = NULL; for (xmlNode *k = q->children; k; k = k->next) if (dav(k, "href")) href = xmlNodeGetContent(k);
    vh_p(f1 ? "{\"href\":" : ",{\"href\":"); f1 = 0; flatv(href ? (char*)href : "", href ? strlen((char*)href) : 0); vh_p(",\"ps\":["); int f2 = 1;
    for (xmlNode *k = q->children; k; k = k->next) if (dav(k, "propstat")) {
      int code = 0; for (xmlNode *s = k->children; s; s = s->next) if (dav(s, "status")) { xmlChar *t = xmlNodeGetContent(s); sscanf((char*)t, "HTTP/1.1 %d", &code); }
      for (xmlNode *s = k->children; s; s = s->next) if (dav(s, "prop")) for (xmlNode *e = s->children; e; e = e->next) if (e->type == XML_ELEMENT_NODE) {
        xmlChar *v = xmlNodeGetContent(e); int coll = 0; for (xmlNode *z = e->children; z; z = z->next) if (dav(z, "collection")) coll = 1;
        vh_p(f2 ? "{\"z\":0" : ",{\"z\":0"); f2 = 0; vh_str("n", (char*)e->name); flats("v", (char*)v); vh_int("code", code); vh_bool("coll", coll); vh_p("}"); }
    }
    vh_p("]}");
  }
  vh_p("]");
}
static int my_perm(const char *base, const char *file, onion_request *req){
  return strstr(file + strlen(base), "secret") ? 1 : onion_webdav_default_check_permissions(base, file, req);
}
static int rmnode(const char *p, const struct stat *st, int f, struct FTW *w){ return remove(p); }
static void scenario(void){
  if (setgroups(0, NULL) || setresgid(65534, 65534, 65534) || setresuid(65534, 65534, 65534)) _exit(96);
  prctl(PR_SET_DUMPABLE, 1); umask(022);
  snprintf(root, sizeof root, "%s/dXXXXXX", top); if (!mkdtemp(root)) _exit(97); rootn = strlen(root);
  xb = mmap(0, 16 << 20, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  mc_on = 0; core_new(); LP->write = d_write; LP->close = d_close;
  int warm = 0, nc = 0; onion_handler *h = NULL; char *mount = "";
  while (vh_next()) {
    size_t n;
    if (vh_is("mkdir")) mkdir(at(vh_s(1)), 0755);
    else if (vh_is("mkfile")) { char *d = vh_hex(vh_a(2), &n), *p = vh_s(1); FILE *f = fopen(at(p), "w"); if (!f) continue; fwrite(d, 1, n, f); fclose(f); chmod(at(p), vh_i(3) ? 0755 : 0644);
      if (vh_i(5)) { if (truncate(at(p), vh_i(5))) continue; }
      struct utimbuf u = { vh_i(4), vh_i(4) }; utime(at(p), &u); }
    else if (vh_is("mklink")) { char *p = vh_s(1), *to = vh_s(2), t[4096]; snprintf(t, sizeof t, "%s%s", *to == '/' ? root : "", to); if (symlink(t, at(p))) continue; }
    else if (vh_is("share")) { char *p = vh_s(1); mount = vh_s(2); int perm = vh_i(3);
      h = onion_handler_webdav(at(p), perm ? my_perm : NULL);
      if (*mount) { char re[100]; snprintf(re, 100, "^%s", mount); onion_url *u = onion_root_url(O); onion_url_add_handler(u, re, h); } else onion_set_root_handler(O, h);
      vh_b("share"); vh_p(",\"p\":"); names(p); flats("mount", mount); vh_bool("perm", perm); tree(); vh_f(); }
    else if (vh_is("exdev")) exdev = vh_i(1);
    else if (vh_is("wfail")) wleft = vh_i(1);
    else if (vh_is("wshort")) wshort = vh_i(1);
    else if (vh_is("dav")) { /* dav method target head body kind depth x dst keep want... */
      if (!warm) { warm = 1; onion_mime_get("x"); cur = 62; onion_request *r = onion_request_new(LP); C[62].req = r;
        C[62].in = "OPTIONS / HTTP/1.0\r\n\r\n"; C[62].n = 22; C[62].pos = 0; LP->read_ready(r); onion_request_free(r); memset(&C[62], 0, sizeof C[62]); in_ = 0; xn = 0; base_fds = nfds(); mc_reset(); }
      size_t hn, bn; char *hd = vh_hex(vh_a(3), &hn), *bd = vh_hex(vh_a(4), &bn), *d = malloc(hn + bn); memcpy(d, hd, hn); memcpy(d + hn, bd, bn); n = hn + bn;
      int c = nc++ % 60; memset(&C[c], 0, sizeof C[c]); cur = c; xn = 0; faulted = crossed = 0; long w0 = wleft; int nt = ntmp;
      mc_on = 1; serving = 1;
      C[c].req = onion_request_new(LP); C[c].in = d; C[c].n = n; C[c].pos = 0;
      int r = 0; while (C[c].pos < n && r >= 0) r = LP->read_ready(C[c].req);
      onion_request_free(C[c].req); C[c].req = NULL; in_ = 0;
      serving = 0; mc_on = 0; wleft = w0;
      char *e = memmem(xb, xn, "\r\n\r\n", 4); size_t k = e ? e + 4 - xb : xn; int m207 = k > 12 && !strncmp(xb + 9, "207", 3);
      vh_b("dav"); vh_str("m", vh_a(1)); flats("t", vh_s(2)); int put = !strcmp(vh_a(1), "PUT"); flat("pd", put ? bd : "", put ? bn : 0);
      vh_str("kind", vh_a(5)); vh_int("depth", vh_i(6)); vh_int("x", vh_i(7)); vh_bool("hasdst", strcmp(vh_a(8), "none")); flats("dst", strcmp(vh_a(8), "none") ? vh_s(8) : ""); vh_bool("keep", vh_i(9));
      vh_p(",\"want\":["); for (int i = 10; i < vh_argc; i++) vh_p("%s\"%s\"", i > 10 ? "," : "", vh_argv[i]); vh_p("]");
      vh_bool("fault", faulted); vh_bool("crossed", crossed); flat("head", xb, k); size_t on_ = xn - k; flat("body", xb + k, m207 ? 0 : on_); if (m207) multi(xb + k, on_); else multi("", 0);
      vh_int("blen", on_); vh_int("left", tmp_left()); (void)nt; tree(); vh_f(); tmp_clean();
      free(d); free(hd); free(bd);
    }
    else if (vh_is("end")) { vh_b("end"); vh_int("live", mc_live()); vh_int("fds", warm ? nfds() - base_fds : 0); vh_f(); }
  }
  nftw(root, rmnode, 30, FTW_PHYS | FTW_DEPTH);
}
int main(int argc, char **argv){
  strcpy(top, "/tmp/vpdXXXXXX"); if (!mkdtemp(top) || chmod(top, 0777)) return 2;
  if (chdir(top)) return 2;
  int r = vh_main(argc, argv, scenario);
  nftw(top, rmnode, 30, FTW_PHYS | FTW_DEPTH); return r;
}
