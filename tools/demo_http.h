/* in-process server: bytes in, bytes out */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <onion/onion.h>
#include <onion/http.h>
#include <onion/dict.h>
#include <onion/block.h>
#include <onion/log.h>
#include <onion/request.h>
#include <onion/response.h>
#include <onion/handler.h>
#include <onion/shortcuts.h>
#include <onion/types_internal.h>
#include <onion/listen_point.h>
static onion *O; static onion_listen_point *LP; static onion_request *R;
static const char *ind; static size_t inn, inp;
static char out[1<<20]; static size_t outn;
static int wscript[1000], wn, wp;
static ssize_t t_write(onion_request *r, const char *d, size_t n){
  if (wp < wn) { int w = wscript[wp++]; if (w <= 0) { errno = EPIPE; return w; } if ((size_t)w < n) n = w; }
  if (outn + n < sizeof out) { memcpy(out + outn, d, n); outn += n; out[outn] = 0; } return n; }
static ssize_t t_read(onion_request *r, char *d, size_t n){ if (n > inn - inp) n = inn - inp; memcpy(d, ind + inp, n); inp += n; return n; }
static void t_close(onion_request *r){}
static int t_init(onion_request *r){ r->connection.fd = 77; return 0; }
static void start(onion_handler_handler h){
  O = onion_new(O_ONE | O_NO_SIGTERM); LP = onion_http_new();
  LP->read = t_read; LP->write = t_write; LP->close = t_close; LP->request_init = t_init;
  onion_add_listen_point(O, "localhost", "1", LP); O->listen_points[0]->listenfd = -1;
  if (h) onion_set_root_handler(O, onion_handler_new(h, NULL, NULL));
}
static void conn(void){ if (!R) R = onion_request_new(LP); }
static void drop(void){ if (R) onion_request_free(R); R = NULL; }
/* feed n bytes in pieces of k (0: at once); returns whether the connection is still open */
static int feedn(const char *d, size_t n, size_t k){
  conn(); size_t p = 0;
  while (p < n && R) { size_t m = k && k < n - p ? k : n - p; ind = d + p; inn = m; inp = 0; p += m;
    while (R && inp < inn) if (LP->read_ready(R) < 0) drop(); }
  return R != NULL;
}
static int feed(const char *s, size_t k){ return feedn(s, strlen(s), k); }
#define CHECK(x) do { if (!(x)) { printf("FAILED line %d: %s\n", __LINE__, #x); exit(1); } } while (0)
