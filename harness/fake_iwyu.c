/* Stand-in analyser for the driver-script checks.
   FAKE_DIR names the scratch directory.  The argument -DID=<n> says which
   command this is.  Writes its argv and cwd to argv.<n>.<pid>, plays the
   output plan plan.<n> (records: fd byte, 4-byte length, data), waits for
   go.<n> where gating is on, logs its end and exits as code.<n> says
   (negative: kills itself with that signal). */
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

static const char *dir;

static void logev(const char *e, const char *id) {
  char p[600], b[100];
  snprintf(p, sizeof p, "%s/log", dir);
  int fd = open(p, O_WRONLY | O_APPEND | O_CREAT, 0644);
  int n = snprintf(b, sizeof b, "%s %s\n", e, id);
  if (write(fd, b, n) != n) _exit(120);
  close(fd);
}

static void put(FILE *f, const char *s) {
  for (; *s; s++) fprintf(f, "%02x", (unsigned char)*s);
  fprintf(f, "\n");
}

static void wr(int fd, const char *b, size_t n) {
  while (n) {
    ssize_t k = write(fd, b, n);
    if (k <= 0) _exit(121);
    b += k;
    n -= k;
  }
}

int main(int argc, char **argv) {
  char p[600], cwd[4096];
  const char *id = "none";
  dir = getenv("FAKE_DIR");
  if (!dir) return 125;
  for (int i = 1; i < argc; i++)
    if (!strncmp(argv[i], "-DID=", 5)) id = argv[i] + 5;
  if (strlen(id) > 40) id = "long";
  snprintf(p, sizeof p, "%s/argv.%s.%d", dir, id, (int)getpid());
  FILE *f = fopen(p, "w");
  put(f, getcwd(cwd, sizeof cwd) ? cwd : "?");
  for (int i = 1; i < argc; i++) put(f, argv[i]);
  fclose(f);
  logev("start", id);
  snprintf(p, sizeof p, "%s/plan.%s", dir, id);
  int fd = open(p, O_RDONLY);
  if (fd >= 0) {
    unsigned char h[5];
    while (read(fd, h, 5) == 5) {
      size_t n = h[1] | h[2] << 8 | h[3] << 16 | (size_t)h[4] << 24;
      if (h[0] == 0) { /* pause n microseconds */
        struct timespec ts = {0, (long)n * 1000};
        nanosleep(&ts, 0);
        continue;
      }
      char *b = malloc(n + 1);
      if (read(fd, b, n) != (ssize_t)n) _exit(122);
      wr(h[0], b, n);
      free(b);
    }
    close(fd);
  }
  snprintf(p, sizeof p, "%s/gated", dir);
  struct stat st;
  if (!stat(p, &st)) {
    snprintf(p, sizeof p, "%s/go.%s", dir, id);
    for (int k = 0; stat(p, &st) && k < 60000; k++) usleep(1000);
  }
  snprintf(p, sizeof p, "%s/code.%s", dir, id);
  int code = 0;
  f = fopen(p, "r");
  if (f) {
    if (fscanf(f, "%d", &code) != 1) code = 0;
    fclose(f);
  }
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  logev("end", id);
  if (code < 0) {
    signal(-code, SIG_DFL);
    kill(getpid(), -code);
    sleep(5);
  }
  return code;
}
