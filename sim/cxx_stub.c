// Stands in for g++ below install.sh.  SIM_CXX: ok | version | syntax | search | empty | kill
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
int main(int argc, char** argv) {
  const char* m = getenv("SIM_CXX"); const char* d = getenv("SIM_DEST"); int ver = 0, syn = 0, pre = 0;
  for (int i = 1; i < argc; ++i) { if (!strcmp(argv[i], "--version")) ver = 1; if (!strcmp(argv[i], "-fsyntax-only")) syn = 1; if (!strcmp(argv[i], "-E")) pre = 1; }
  char buf[4096]; if (!ver) while (read(0, buf, sizeof buf) > 0) ;
  if (!m) m = "ok";
  if (ver) { if (!strcmp(m, "version")) return 1; puts("g++ (simulated) 13"); return 0; }
  if (syn) { if (!strcmp(m, "kill")) raise(SIGKILL); if (!strcmp(m, "syntax")) { fputs("<stdin>:1: fatal error\n", stderr); return 1; } return 0; }
  if (pre) { if (!strcmp(m, "search")) return 1; if (strcmp(m, "empty")) printf("# 1 \"<stdin>\"\n# 1 \"%s/vector\" 1 3\n", d ? d : "/nonexistent"); return 0; }
  return 0;
}
