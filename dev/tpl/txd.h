// transaction demos: a resource manager that logs its calls and answers as told by files
#pragma once
#include "srv.h"
#include <fstream>
#include <tx.h>
#include "mib.h"
#include "trx.h"
extern "C" void TM(TPSVCINFO *);
namespace fux::tx {
extern uint16_t grpno;
extern size_t grpidx;
}
namespace fux::glob {
extern xa_switch_t *xasw;
}
static int answer(const char *op, int g, long flags) {
  std::ofstream("xalog", std::ios::app) << op << " " << g << " " << flags << "\n";
  std::ifstream f(std::string("rc_") + op + "_" + std::to_string(g));
  int rc = XA_OK;
  if (f) f >> rc;
  return rc;
}
static void tell(const char *op, int g, int rc) { std::ofstream(std::string("rc_") + op + "_" + std::to_string(g)) << rc; }
static int calls(const char *op, int g, long flags = -1) {
  std::ifstream f("xalog");
  std::string o;
  int n = 0, x;
  long fl;
  while (f >> o >> x >> fl) n += o == op && (g == 0 || x == g) && (flags == -1 || fl == flags);
  return n;
}
static int x_open(char *, int g, long f) { return answer("open", g, f); }
static int x_close(char *, int g, long f) { return answer("close", g, f); }
static int x_start(XID *, int g, long f) { return answer("start", g, f); }
static int x_end(XID *, int g, long f) { return answer("end", g, f); }
static int x_rollback(XID *, int g, long f) { return answer("rollback", g, f); }
static int x_prepare(XID *, int g, long f) { return answer("prepare", g, f); }
static int x_commit(XID *, int g, long f) { return answer("commit", g, f); }
static struct xa_switch_t sw = {"DEMO", TMNOFLAGS, 0, x_open, x_close, x_start, x_end, x_rollback, x_prepare, x_commit,
                                nullptr, nullptr, nullptr};
static tmdsptchtbl_t tmtbl[] = {{(char *)".TM", (char *)"TM", TM, 0, 0, nullptr}, {nullptr, nullptr, nullptr, 0, 0, nullptr}};
static int serve_tm(int argc, char **argv) {
  static tmsvrargs_t a = {&sw, tmtbl, 0, tpsvrinit, tpsvrdone, _tmrunserver, nullptr, nullptr, nullptr,
                          nullptr, nullptr, tpsvrthrinit, tpsvrthrdone, nullptr};
  _tmbuilt_with_thread_option = 0;
  return _tmstartserver(argc, argv, &a);
}
static pid_t spawn_tm(const char *grp, const char *srvid) {
  pid_t p = fork();
  if (p == 0) {
    execl("./demo", "./demo", "-i", srvid, "-g", grp, "-A", nullptr);
    _exit(9);
  }
  for (int i = 0; i < 200 && calls("open", atoi(grp)) == 0; i++) usleep(20000);
  usleep(700000);
  return p;
}
static void as_group(int g) {
  fux::tx::grpno = g;
  fux::glob::xasw = &sw;
}
