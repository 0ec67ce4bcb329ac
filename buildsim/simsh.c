/* The shell of a simulated build: asks the scheduler before it runs the command.
 *
 *   simsh [--target=NAME] -c COMMAND
 *
 * to the scheduler:   "pid\0target\0cwd\0command\0\0" with a 4-byte length in front
 * from it:            'R' run it ('R' 1: with the tools of the tool chain failing), 'S' <status> do not run it and exit with the status
 * to it:              'D' <wait status, 4 bytes>
 * from it:            'X' <exit status> exit with this status, 'K' <signal> die of this signal
 */
#define _GNU_SOURCE
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <unistd.h>

static int get(int fd, void *p, size_t n) {
  char *c = p;
  while (n) {
    ssize_t k = read(fd, c, n);
    if (k <= 0) return -1;
    c += k, n -= k;
  }
  return 0;
}

static void put(int fd, const void *p, size_t n) {
  const char *c = p;
  while (n) {
    ssize_t k = write(fd, c, n);
    if (k <= 0) _exit(99);
    c += k, n -= k;
  }
}

int main(int argc, char **argv) {
  const char *target = "", *cmd = NULL;
  for (int i = 1; i < argc; i++) {
    if (!strncmp(argv[i], "--target=", 9)) target = argv[i] + 9;
    else if (!strcmp(argv[i], "-c") || !strcmp(argv[i], "-ec")) cmd = argv[i + 1], i++;
  }
  if (!cmd) return 98;
  int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
  struct sockaddr_un a = {.sun_family = AF_UNIX};
  strncpy(a.sun_path, getenv("SIM_SOCK"), sizeof a.sun_path - 1);
  if (connect(fd, (struct sockaddr *)&a, sizeof a)) return 97;
  char cwd[4096];
  if (!getcwd(cwd, sizeof cwd)) return 96;
  size_t n = strlen(cmd) + strlen(target) + strlen(cwd) + 64;
  char *buf = malloc(n);
  size_t k = sprintf(buf, "%d", (int)getpid()) + 1;
  k += sprintf(buf + k, "%s", target) + 1;
  k += sprintf(buf + k, "%s", cwd) + 1;
  k += sprintf(buf + k, "%s", cmd);
  unsigned len = k;
  put(fd, &len, 4);
  put(fd, buf, k);
  char what;
  unsigned char v;
  if (get(fd, &what, 1) || get(fd, &v, 1)) return 95;
  if (what == 'R') {
    pid_t p = fork();
    if (p == 0) {
      if (v) setenv("SIM_TOOLFAIL", "1", 1);
      setenv("LD_PRELOAD", getenv("SIM_PRE"), 1);
      execl("/bin/sh", "sh", "-c", cmd, (char *)NULL);
      _exit(94);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0) {}
    put(fd, "D", 1);
    put(fd, &st, 4);
    if (get(fd, &what, 1) || get(fd, &v, 1)) return 95;
    if (what == 'K') {
      signal(v, SIG_DFL);
      kill(getpid(), v);
      pause();
    }
  }
  _exit(v);
}
