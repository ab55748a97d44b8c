// Stand-in for curl: no network. SIMCURL says how the download goes; SIMINDEX is the file it "downloads".
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
// dies of the signal even if it was started with it ignored or blocked
static void die(int g) { sigset_t m; sigemptyset(&m); sigaddset(&m, g); signal(g, SIG_DFL); sigprocmask(SIG_UNBLOCK, &m, 0); raise(g); _exit(128 + g); }
int main(int argc, char** argv) {
  const char *mode = getenv("SIMCURL"), *src = getenv("SIMINDEX"), *out = 0; int failflag = 0; if (!mode) mode = "ok"; long cut = 0; if (strchr(mode, '=')) cut = atol(strchr(mode, '=') + 1);
  for (int i = 1; i < argc; i++) {
    if (!strncmp(argv[i], "--", 2)) { if (!strcmp(argv[i], "--output") && i + 1 < argc) out = argv[++i]; else if (!strncmp(argv[i], "--output=", 9)) out = argv[i] + 9; else if (!strncmp(argv[i], "--fail", 6)) failflag = 1; else if (!strcmp(argv[i], "--max-time") || !strcmp(argv[i], "--retry") || !strcmp(argv[i], "--connect-timeout")) i++; }
    else if (argv[i][0] == '-' && argv[i][1]) for (char* c = argv[i] + 1; *c; c++) { if (*c == 'f') failflag = 1; if (*c == 'm') { if (!c[1]) i++; break; } if (*c == 'o') { if (c[1]) out = c + 1; else if (i + 1 < argc) out = argv[++i]; break; } }
  }
  if (!strcmp(mode, "dns")) { fprintf(stderr, "curl: (6) Could not resolve host\n"); return 6; }
  if (!strcmp(mode, "nothing")) return 0;
  if (!strcmp(mode, "kill")) { die(SIGKILL); }
  if (!strcmp(mode, "chatty")) { char b[4096]; memset(b, '#', sizeof b); for (int i = 0; i < 64; i++) { if (write(2, b, sizeof b) < 0) {} } }
  FILE* o = out ? fopen(out, "w") : stdout; if (!o) return 23;
  if (!strcmp(mode, "http")) { if (failflag) { if (out) { fclose(o); unlink(out); } return 22; } fputs("<html><h1>404 Not Found</h1></html>\n", o); fclose(o); return 0; }
  int code = 0, sig = 0; if (!strncmp(mode, "exit", 4)) code = atoi(mode + 4); if (!strncmp(mode, "sig", 3)) sig = atoi(mode + 3);
  if ((code || sig) && cut < 0) { if (out) { fclose(o); unlink(out); } if (sig) die(sig); return code; }
  FILE* s = src ? fopen(src, "r") : 0; if (!s) return 9; char b[65536]; size_t n; long left = !strncmp(mode, "partial", 7) || !strncmp(mode, "killpart", 8) || code || sig ? cut : 1L << 60;
  while (left > 0 && (n = fread(b, 1, left < (long)sizeof b ? left : sizeof b, s)) > 0) { fwrite(b, 1, n, o); left -= n; }
  if (fclose(o)) return 23;
  if (!strncmp(mode, "killpart", 8)) die(SIGTERM);
  if (sig) die(sig);
  if (code) return code;
  return !strncmp(mode, "partial", 7) ? 18 : 0;
}
