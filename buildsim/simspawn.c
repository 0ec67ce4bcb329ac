/* Preloaded into ninja only: the shell it starts for a step is the gate to the scheduler. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <spawn.h>
#include <stdlib.h>
#include <string.h>

int posix_spawn(pid_t *pid, const char *path, const posix_spawn_file_actions_t *fa, const posix_spawnattr_t *at,
                char *const argv[], char *const envp[]) {
  static __typeof__(posix_spawn) *real;
  if (!real) real = dlsym(RTLD_NEXT, "posix_spawn");
  const char *sh = getenv("SIM_SH");
  if (sh && !strcmp(path, "/bin/sh")) path = sh;
  return real(pid, path, fa, at, argv, envp);
}
