// server part of the demos: ./demo -i 1 -g 1 -A serves, ./demo calls
#pragma once
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <atmi.h>
#include <xa.h>
#include <xatmi.h>
extern "C" {
extern struct xa_switch_t tmnull_switch;
extern int _tmbuilt_with_thread_option;
int _tmrunserver(int);
int tprminit(char *, void *);
}
static int serve(int argc, char **argv, tmdsptchtbl_t *tbl, int threads = 0) {
  static tmsvrargs_t a = {&tmnull_switch, tbl, 0, tpsvrinit, tpsvrdone, _tmrunserver, nullptr, nullptr, nullptr,
                          nullptr, nullptr, tpsvrthrinit, tpsvrthrdone, nullptr};
  _tmbuilt_with_thread_option = threads;
  return _tmstartserver(argc, argv, &a);
}
static pid_t spawn_server(const char *srvid = "1") {
  pid_t p = fork();
  if (p == 0) {
    execl("./demo", "./demo", "-i", srvid, "-g", "1", "-A", nullptr);
    _exit(9);
  }
  return p;
}
// waits until the service can be called
static bool wait_service(const char *svc, int tries = 100) {
  for (int i = 0; i < tries; i++) {
    char *b = tpalloc((char *)"STRING", nullptr, 100);
    strcpy(b, "x");
    long l = 0;
    int r = tpcall((char *)svc, b, 0, &b, &l, 0);
    tpfree(b);
    if (r == 0) return true;
    usleep(50000);
  }
  return false;
}
static void stop(pid_t p) {
  kill(p, SIGKILL);
  waitpid(p, nullptr, 0);
}
