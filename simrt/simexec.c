// simexec: starts one simulated process.
// usage: simexec <cwd> <stdin> <stdout> <stderr> <seconds> <program> [args...]
// Address-space randomisation is off (so that addresses repeat), standard streams are files, and
// the process ends with its parent or after the given number of wall-clock seconds.
#define _GNU_SOURCE
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <unistd.h>

static void redirect(const char *path, int flags, int to) {
  int fd = open(path, flags, 0644);
  if (fd < 0) _exit(93);
  if (fd != to) {
    if (dup2(fd, to) < 0) _exit(93);
    close(fd);
  }
}
int main(int argc, char **argv) {
  if (argc < 7) return 93;
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  personality(ADDR_NO_RANDOMIZE);
  struct rlimit core = {0, 0};
  setrlimit(RLIMIT_CORE, &core);
  redirect(argv[2], O_RDONLY, 0);
  redirect(argv[3], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 1);
  redirect(argv[4], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 2);
  if (chdir(argv[1])) return 93;
  alarm((unsigned)atoi(argv[5]));
  const char *preload = getenv("SIMRT_SO");
  if (preload) setenv("LD_PRELOAD", preload, 1);
  unsetenv("SIMRT_SO");
  execv(argv[6], argv + 6);
  return 92;
}
