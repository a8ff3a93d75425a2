/* The command run by generated Babfiles.  It reports to the harness over the
 * unix socket $BABP_SOCK and obeys it.
 *   probe run ID [ARGS..]   "S ID arg|arg.."; then commands from the harness
 *   probe tree ID [ARGS..]  as run, plus a grandchild "G ID" that stays until killed
 *   probe dump ID [ARGS..]  "D ID <json>" with args, cwd, environment; exits 0
 * Called as "sh" it dumps all its arguments.
 * Harness commands (one per line):  E <code>   exit (1000 + n: by signal n);   W <fd> <hex>  write, answer "A".
 *   R <n>   read from stdin once, answer "R <hex>" ("R !" on error). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/un.h>

extern char **environ;
static int dial(void) {
  const char *p = getenv("BABP_SOCK");
  struct sockaddr_un a; int s;
  if (!p) exit(120);
  s = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
  memset(&a, 0, sizeof a); a.sun_family = AF_UNIX;
  snprintf(a.sun_path, sizeof a.sun_path, "%s", p);
  if (s < 0 || connect(s, (struct sockaddr *)&a, sizeof a)) exit(121);
  return s;
}
static void put(int s, const char *b, size_t n) {
  while (n) { ssize_t k = write(s, b, n); if (k <= 0) exit(122); b += k; n -= (size_t)k; }
}
static void hexs(FILE *f, const char *t) {
  fputc('"', f);
  for (; *t; t++) fprintf(f, "%02x", (unsigned char)*t);
  fputc('"', f);
}
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static void serve(int s) {
  static char line[1 << 20]; size_t n = 0;
  for (;;) {
    char c; ssize_t k = read(s, &c, 1);
    if (k <= 0) _exit(123);        /* harness gone */
    if (c != '\n') { if (n < sizeof line - 1) line[n++] = c; continue; }
    line[n] = 0; n = 0;
    if (line[0] == 'E') {
      int code = atoi(line + 2);
      if (code >= 1000) { 
        /* end by a signal, the shell too: it leads our process group */
        signal(code - 1000, SIG_DFL);
        if (getpgrp() == getppid() || getpgrp() == getpid()) kill(0, code - 1000);
        kill(getpid(), code - 1000); pause();
      }
      _exit(code);
    }
    if (line[0] == 'W') {
      int fd = line[2] - '0'; size_t m = 0; char *h = line + 4;
      for (; h[0] && h[1]; h += 2) line[m++] = (char)(hexv(h[0]) * 16 + hexv(h[1]));
      put(fd, line, m);
      put(s, "A\n", 2);
    }
    if (line[0] == 'R') {
      char b[512], o[1040]; int k = atoi(line + 2), at = 2; ssize_t i, r = read(0, b, k > 512 ? 512 : (size_t)k);
      strcpy(o, "R ");
      if (r < 0) at += sprintf(o + at, "!");
      for (i = 0; i < r; i++) at += sprintf(o + at, "%02x", (unsigned char)b[i]);
      o[at++] = '\n'; put(s, o, (size_t)at);
    }
  }
}
int main(int argc, char **argv) {
  char *m = NULL; size_t n = 0; FILE *f; int s, i;
  const char *base = strrchr(argv[0], '/');
  int fake = !strcmp(base ? base + 1 : argv[0], "sh");   /* standing in for the shell: dump all arguments */
  if (argc < 3) return 119;
  signal(SIGINT, SIG_IGN); signal(SIGTERM, SIG_IGN); signal(SIGHUP, SIG_IGN); signal(SIGPIPE, SIG_IGN);
  f = open_memstream(&m, &n);
  if (fake || !strcmp(argv[1], "dump")) {
    char cwd[4096];
    int from = fake ? 1 : 3;
    fprintf(f, "D %s {\"args\":[", fake ? "sh" : argv[2]);
    for (i = from; i < argc; i++) { if (i > from) fputc(',', f); hexs(f, argv[i]); }
    fprintf(f, "],\"cwd\":"); hexs(f, getcwd(cwd, sizeof cwd) ? cwd : "?");
    fprintf(f, ",\"env\":[");
    for (i = 0; environ[i]; i++) { if (i) fputc(',', f); hexs(f, environ[i]); }
    fprintf(f, "],\"in\":%d}\n", isatty(0));
    fclose(f); s = dial(); put(s, m, n);
    return 0;
  }
  if (!strcmp(argv[1], "tree")) {
    if (fork() == 0) { s = dial(); dprintf(s, "G %s\n", argv[2]); serve(s); }
  }
  fprintf(f, "S %s ", argv[2]);
  for (i = 3; i < argc; i++) fprintf(f, "%s%s", i > 3 ? "|" : "", argv[i]);
  fputc('\n', f); fclose(f);
  s = dial(); put(s, m, n); serve(s);
  return 0;
}
