#include "http_core.h"
static void scenario(void){
  mc_on = 0;
  core_new();
  onion_set_root_handler(O, onion_handler_new((onion_handler_handler)prog_handler, NULL, NULL));
  core_warm();
  while (vh_next()) {
    if (core_cmd()) continue;
    if (vh_is("end") || vh_is("endr")) {
      int r = vh_is("endr");
      mc_on = 1; core_end(); mc_on = 0;
      ev(r ? "res" : "end", 0); vh_int("live", mc_live()); vh_int("fds", nfds() - base_fds); vh_int("tmp", tmp_left()); evf();
    }
  }
  tmp_clean();
}
int main(int argc, char **argv){ return vh_main(argc, argv, scenario); }
