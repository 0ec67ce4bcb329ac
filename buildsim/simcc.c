/* Stub tool chain: compiler, archiver, linker, nm, readelf and the programs the linker makes.
 *
 * What it writes is a function of everything a real tool would look at: flags, the text of the
 * sources and of every header, the order and content of the inputs.  It behaves as the real ones do
 * where a build system depends on it: dependency files in gcc's format, ar updating an existing
 * archive, thin archives naming their members, shared libraries giving a linker their symbols only,
 * programs needing their shared libraries at run time.
 */
#define _GNU_SOURCE
#include <ctype.h>
#include <errno.h>
#include <fcntl.h>
#include <libgen.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

typedef unsigned long long u64;
static const char *me;

static void die(const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  fprintf(stderr, "%s: ", me);
  vfprintf(stderr, f, ap);
  fprintf(stderr, "\n");
  exit(1);
}

struct str { char *p; size_t n, cap; };
static void add(struct str *s, const char *p, size_t n) {
  if (s->n + n + 1 > s->cap) {
    s->cap = (s->n + n + 1) * 2;
    s->p = realloc(s->p, s->cap);
  }
  memcpy(s->p + s->n, p, n);
  s->n += n;
  s->p[s->n] = 0;
}
static void adds(struct str *s, const char *p) { add(s, p, strlen(p)); }
static void addf(struct str *s, const char *f, ...) {
  char b[9000];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  adds(s, b);
}

static u64 hash(const char *p, size_t n) {
  u64 h = 14695981039346656037ull;
  for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)p[i]) * 1099511628211ull;
  return h;
}

static int slurp(const char *path, struct str *s) {
  int fd = open(path, O_RDONLY);
  if (fd < 0) return -1;
  struct stat st;
  fstat(fd, &st);
  if (S_ISDIR(st.st_mode)) { close(fd); errno = EISDIR; return -1; }
  char b[1 << 14];
  ssize_t k;
  s->n = 0;
  add(s, "", 0);
  while ((k = read(fd, b, sizeof b)) > 0) add(s, b, k);
  close(fd);
  return 0;
}

static void spit(const char *path, struct str *s, int mode) {
  int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0666);
  if (fd < 0) die("cannot write %s: %s", path, strerror(errno));
  size_t half = s->n / 2, at = 0;
  while (at < s->n) {
    size_t end = at < half ? half : s->n;
    ssize_t k = write(fd, s->p + at, end - at);
    if (k < 0) die("cannot write %s: %s", path, strerror(errno));
    at += k;
  }
  if (mode) {
    mode_t m = umask(0);
    umask(m);
    fchmod(fd, mode & ~m);
  }
  if (close(fd)) die("cannot write %s: %s", path, strerror(errno));
}

/* ---------------------------------------------------------------- compiler */
static const char *incdirs[200];
static int nincdirs;
static const char *seen[2000];
static int nseen;
static struct str body, syms;

static void source(const char *path);

static int exists(const char *p) {
  int fd = open(p, O_RDONLY);
  if (fd < 0) return 0;
  struct stat st;
  fstat(fd, &st);
  close(fd);
  return S_ISREG(st.st_mode);
}

static void include(const char *from, const char *name, int quote) {
  char p[8192];
  if (quote) {
    char d[4096];
    snprintf(d, sizeof d, "%s", from);
    char *dir = dirname(d);
    if (!strcmp(dir, ".")) snprintf(p, sizeof p, "%s", name);
    else snprintf(p, sizeof p, "%s/%s", dir, name);
    if (exists(p)) { source(p); return; }
  }
  for (int i = 0; i < nincdirs; i++) {
    snprintf(p, sizeof p, "%s/%s", incdirs[i], name);
    if (exists(p)) { source(p); return; }
  }
  if (quote) die("%s: fatal error: %s: No such file or directory", from, name);
}

static void source(const char *path) {
  for (int i = 0; i < nseen; i++) if (!strcmp(seen[i], path)) return;
  seen[nseen++] = strdup(path);
  struct str s = {0};
  if (slurp(path, &s)) die("error: %s: %s", path, strerror(errno));
  addf(&body, "file %s %016llx\n", path, hash(s.p, s.n));
  char *line = s.p, *end;
  for (; *line; line = end) {
    end = strchr(line, '\n');
    if (!end) end = line + strlen(line);
    char c = *end;
    *end = 0;
    char *q = line;
    while (isspace((unsigned char)*q)) q++;
    if (!strncmp(q, "#include", 8)) {
      q += 8;
      while (isspace((unsigned char)*q)) q++;
      if (*q == '"' || *q == '<') {
        char close = *q == '"' ? '"' : '>';
        char *e = strchr(q + 1, close);
        if (e) {
          char name[2048];
          snprintf(name, sizeof name, "%.*s", (int)(e - q - 1), q + 1);
          include(path, name, close == '"');
        }
      }
    } else if (!strncmp(q, "int ", 4)) {
      char *e = strpbrk(q + 4, ";=( ");
      if (e) addf(&syms, "sym %.*s T\n", (int)(e - q - 4), q + 4);
    } else if (!strncmp(q, "data ", 5)) {
      char *e = strpbrk(q + 5, ";=( ");
      if (e) addf(&syms, "sym %.*s D\n", (int)(e - q - 5), q + 5);
    } else if (!strncmp(q, "#error", 6)) {
      die("%s: error: %s", path, q);
    }
    *end = c;
    if (*end) end++;
  }
  free(s.p);
}

/* ---------------------------------------------------------------- inputs of links and archives */
static void rel(const char *path, const char *start, char *out, size_t n) {
  /* path relative to the directory start; both exist */
  char a[PATH_MAX], b[PATH_MAX];
  if (!realpath(path, a) || !realpath(start, b)) die("%s: %s", path, strerror(errno));
  char *x = a, *y = b;
  strcat(b, "/");
  char *pa = a, *pb = b;
  while (*x && *x == *y) {
    if (*x == '/') pa = x + 1, pb = y + 1;
    x++, y++;
  }
  out[0] = 0;
  for (; *pb; pb++) if (*pb == '/') strncat(out, "../", n - strlen(out) - 1);
  strncat(out, pa, n - strlen(out) - 1);
}

static void symbols(const char *text, struct str *out) {
  for (const char *l = text; l && *l; l = strchr(l, '\n'), l = l ? l + 1 : NULL)
    if (!strncmp(l, "sym ", 4)) {
      const char *e = strchr(l, '\n');
      add(out, l, e ? (size_t)(e - l + 1) : strlen(l));
    }
}

static int startswith(const char *s, const char *p) { return !strncmp(s, p, strlen(p)); }

static void member_check(const char *what, const char *path, struct str *s) {
  if (slurp(path, s)) die("error: %s: %s", path, strerror(errno));
  if (!startswith(s->p, "OBJ\n") || s->n < 8 || strcmp(s->p + s->n - 4, "END\n")) die("error: %s: file format not recognized", path);
}

static char *copyarg(const char *p, size_t n) { return strndup(p, n); }

static int expand(int argc, char **argv, char ***out) {
  /* @file arguments */
  char **v = calloc(20000, sizeof *v);
  int n = 0;
  for (int i = 1; i < argc; i++) {
    if (argv[i][0] == '@') {
      struct str s = {0};
      if (slurp(argv[i] + 1, &s)) die("%s: %s", argv[i] + 1, strerror(errno));
      char *p = s.p;
      while (*p) {
        while (*p && isspace((unsigned char)*p)) p++;
        char *e = p;
        while (*e && !isspace((unsigned char)*e)) e++;
        if (e > p) v[n++] = copyarg(p, e - p);
        p = e;
      }
    } else {
      v[n++] = argv[i];
    }
  }
  *out = v;
  return n;
}

static int ar(int argc, char **argv) {
  char **v;
  int n = expand(argc, argv, &v);
  if (n < 2) die("usage");
  int thin = strchr(v[0], 'T') != NULL;
  const char *lib = v[1];
  char d[4096];
  snprintf(d, sizeof d, "%s", lib);
  const char *dir = strdup(dirname(d));
  struct str out = {0};
  adds(&out, thin ? "!<thin>\n" : "!<arch>\n");
  /* members that are there already stay, unless replaced */
  struct str old = {0};
  struct str kept = {0};
  adds(&kept, "");
  if (slurp(lib, &old) == 0) {
    if (!startswith(old.p, out.p)) die("%s: file format not recognized", lib);
    if (old.n < 12 || strcmp(old.p + old.n - 4, "END\n")) die("%s: malformed archive", lib);
    adds(&kept, old.p + 8);
    kept.p[kept.n -= 4] = 0;
  }
  for (int i = 2; i < n; i++) {
    struct str s = {0};
    member_check("ar", v[i], &s);
    char name[8192];
    if (thin) rel(v[i], dir, name, sizeof name);
    else {
      char b[4096];
      snprintf(b, sizeof b, "%s", v[i]);
      snprintf(name, sizeof name, "%s", basename(b));
    }
    char key[8300];
    snprintf(key, sizeof key, "member %s\n", name);
    char *at = old.p ? strstr(kept.p, key) : NULL;
    struct str m = {0};
    addf(&m, "%shash %016llx\n", key, hash(s.p, s.n));
    symbols(s.p, &m);
    adds(&m, "endmember\n");
    if (at && old.p) {
      char *e = strstr(at, "endmember\n") + 10;
      struct str k2 = {0};
      add(&k2, kept.p, at - kept.p);
      add(&k2, m.p, m.n);
      adds(&k2, e);
      kept = k2;
    } else {
      add(&kept, m.p, m.n);
    }
  }
  add(&out, kept.p, kept.n);
  adds(&out, "END\n");
  /* as GNU ar does: a temporary file beside it, then a rename */
  char tmp[4200];
  snprintf(tmp, sizeof tmp, "%s.artmp", lib);
  spit(tmp, &out, 0);
  if (rename(tmp, lib)) { unlink(tmp); die("unable to rename %s: %s", lib, strerror(errno)); }
  return 0;
}

static int ld(char **in, int nin, const char *out, int shared, struct str *flags) {
  struct str o = {0}, sy = {0}, need = {0};
  adds(&sy, "");
  adds(&need, "");
  adds(&o, shared ? "SO\n" : "#!/bin/sh\nexec simtool \"$0\" \"$@\"\n");
  addf(&o, "flags %016llx\n", hash(flags->p, flags->n));
  for (int i = 0; i < nin; i++) {
    struct str s = {0};
    if (slurp(in[i], &s)) die("cannot find %s: %s", in[i], strerror(errno));
    if (s.n < 4 || strcmp(s.p + s.n - 4, "END\n")) die("%s: file truncated", in[i]);
    if (startswith(s.p, "OBJ\n")) {
      addf(&o, "in %016llx\n", hash(s.p, s.n));
      symbols(s.p, &sy);
    } else if (startswith(s.p, "!<arch>\n")) {
      addf(&o, "in %016llx\n", hash(s.p, s.n));
      symbols(s.p, &sy);
    } else if (startswith(s.p, "!<thin>\n")) {
      char d[4096];
      snprintf(d, sizeof d, "%s", in[i]);
      char *dir = dirname(d);
      for (char *l = strstr(s.p, "member "); l; l = strstr(l + 1, "\nmember ")) {
        if (*l == '\n') l++;
        char *e = strchr(l, '\n');
        char p[9000];
        snprintf(p, sizeof p, "%s/%.*s", dir, (int)(e - l - 7), l + 7);
        struct str m = {0};
        member_check("ld", p, &m);
        u64 was = strtoull(e + 6, NULL, 16);
        if (was != hash(m.p, m.n)) die("%s: member %s is not what it was when the archive was made", in[i], p);
        addf(&o, "in %016llx\n", was);
        symbols(m.p, &sy);
      }
    } else if (startswith(s.p, "SO\n")) {
      struct str t = {0};
      adds(&t, "");
      symbols(s.p, &t);
      char *so = strstr(s.p, "\nsoname ");
      char b[4096];
      if (so) snprintf(b, sizeof b, "%.*s", (int)strcspn(so + 8, "\n"), so + 8);
      else { char c[4096]; snprintf(c, sizeof c, "%s", in[i]); snprintf(b, sizeof b, "%s", basename(c)); }
      addf(&o, "shared %s %016llx\n", b, hash(t.p, t.n));
      addf(&need, "needed %s\n", b);
    } else {
      die("%s: file format not recognized", in[i]);
    }
  }
  char *vs = strstr(flags->p, "-Wl,--version-script=");
  if (vs) {
    char b[4096];
    struct str t = {0};
    snprintf(b, sizeof b, "%.*s", (int)strcspn(vs + 21, "\n"), vs + 21);
    if (slurp(b, &t)) die("cannot open linker script file %s: %s", b, strerror(errno));
    addf(&o, "script %016llx\n", hash(t.p, t.n));
  }
  if (shared) {
    char *p = strstr(flags->p, "-Wl,-soname=");
    if (p) addf(&o, "soname %.*s\n", (int)strcspn(p + 12, "\n"), p + 12);
  }
  char *p = flags->p;
  while ((p = strstr(p, "-Wl,-rpath=")) != NULL) {
    addf(&o, "rpath %.*s\n", (int)strcspn(p + 11, "\n"), p + 11);
    p++;
  }
  add(&o, need.p, need.n);
  add(&o, sy.p, sy.n);
  adds(&o, "END\n");
  unlink(out);
  spit(out, &o, shared ? 0777 : 0777);
  return 0;
}

static int cc(int argc, char **argv) {
  char **v;
  int n = expand(argc, argv, &v);
  const char *out = NULL, *mf = NULL;
  char *in[4000];
  int nin = 0, compile = 0, shared = 0, md = 0;
  struct str flags = {0};
  adds(&flags, me);
  adds(&flags, "\n");
  for (int i = 0; i < n; i++) {
    char *a = v[i];
    if (!strcmp(a, "-o")) out = v[++i];
    else if (!strcmp(a, "-c")) compile = 1;
    else if (!strcmp(a, "-MF")) mf = v[++i];
    else if (!strcmp(a, "-MMD")) md = 1;
    else if (!strcmp(a, "-shared")) shared = 1, adds(&flags, "-shared\n");
    else if (!strcmp(a, "-I")) incdirs[nincdirs++] = v[++i], addf(&flags, "-I%s\n", v[i]);
    else if (startswith(a, "-I")) incdirs[nincdirs++] = a + 2, addf(&flags, "%s\n", a);
    else if (a[0] == '-') addf(&flags, "%s\n", a);
    else in[nin++] = a;
  }
  if (!nin) die("no input files");
  if (!out) die("no output file");
  if (!compile) return ld(in, nin, out, shared, &flags);
  if (nin != 1) die("cannot specify -o with -c and multiple files");
  addf(&body, "flags %016llx\n", hash(flags.p, flags.n));
  source(in[0]);
  if (md) {
    struct str d = {0};
    addf(&d, "%s: %s", out, in[0]);
    size_t col = d.n;
    for (int i = 1; i < nseen; i++) {
      size_t k = strlen(seen[i]);
      if (col + k > 72) { adds(&d, " \\\n"); col = 0; }
      addf(&d, " %s", seen[i]);
      col += k + 1;
    }
    adds(&d, "\n");
    if (!mf) die("no -MF");
    spit(mf, &d, 0);
  }
  struct str o = {0};
  adds(&o, "OBJ\n");
  add(&o, body.p, body.n);
  if (syms.p) add(&o, syms.p, syms.n);
  adds(&o, "END\n");
  spit(out, &o, 0);
  return 0;
}

static int nm(int argc, char **argv) {
  struct str s = {0};
  const char *f = argv[argc - 1];
  if (slurp(f, &s)) die("%s: %s", f, strerror(errno));
  for (char *l = s.p; l && *l; l = strchr(l, '\n'), l = l ? l + 1 : NULL)
    if (startswith(l, "sym ")) printf("%.*s 0\n", (int)strcspn(l + 4, "\n"), l + 4);
  return 0;
}

static int readelf(int argc, char **argv) {
  struct str s = {0};
  const char *f = argv[argc - 1];
  if (slurp(f, &s)) die("%s: %s", f, strerror(errno));
  char *so = strstr(s.p, "\nsoname ");
  if (so) printf(" 0x0e (SONAME) Library soname: [%.*s]\n", (int)strcspn(so + 8, "\n"), so + 8);
  else printf(" no dynamic section worth mentioning\n");
  return 0;
}

/* a program made by the linker:  PROGRAM input... --out output...
 * every output is a comment naming the program's content, then the text of the inputs */
static int tool(int argc, char **argv) {
  struct str s = {0};
  char self[4096];
  snprintf(self, sizeof self, "%s", argv[1]);
  if (slurp(self, &s)) die("%s: %s", self, strerror(errno));
  if (s.n < 4 || strcmp(s.p + s.n - 4, "END\n")) die("%s: cannot execute", self);
  char d[4096];
  snprintf(d, sizeof d, "%s", self);
  char *dir = strdup(dirname(d));
  const char *llp = getenv("LD_LIBRARY_PATH");
  for (char *l = strstr(s.p, "\nneeded "); l; l = strstr(l + 1, "\nneeded ")) {
    char name[2048], p[9000];
    snprintf(name, sizeof name, "%.*s", (int)strcspn(l + 8, "\n"), l + 8);
    int ok = 0;
    for (char *r = strstr(s.p, "\nrpath "); r && !ok; r = strstr(r + 1, "\nrpath ")) {
      char rp[4096];
      snprintf(rp, sizeof rp, "%.*s", (int)strcspn(r + 7, "\n"), r + 7);
      if (startswith(rp, "$ORIGIN/")) snprintf(p, sizeof p, "%s/%s/%s", dir, rp + 8, name);
      else snprintf(p, sizeof p, "%s/%s", rp, name);
      ok = exists(p);
    }
    char *paths = strdup(llp ? llp : "");
    for (char *q = strtok(paths, ":"); q && !ok; q = strtok(NULL, ":")) {
      snprintf(p, sizeof p, "%s/%s", q, name);
      ok = exists(p);
    }
    if (!ok) die("error while loading shared libraries: %s: cannot open shared object file", name);
    struct str so = {0};
    slurp(p, &so);
    if (so.n < 4 || strcmp(so.p + so.n - 4, "END\n")) die("%s: file too short", p);
  }
  struct str o = {0};
  addf(&o, "/* by %016llx */\n", hash(s.p, s.n));
  int i = 2;
  for (; i < argc && strcmp(argv[i], "--out"); i++) {
    struct str t = {0};
    if (slurp(argv[i], &t)) die("%s: %s", argv[i], strerror(errno));
    add(&o, t.p, t.n);
  }
  for (i++; i < argc; i++) spit(argv[i], &o, 0);
  return 0;
}

int main(int argc, char **argv) {
  char b[4096];
  snprintf(b, sizeof b, "%s", argv[0]);
  me = strdup(basename(b));
  if (getenv("SIM_TOOLFAIL")) {
    struct str none = {0};
    adds(&none, "");
    spit(getenv("SIM_MARK"), &none, 0);
    die("error: simulated failure");
  }
  if (!strcmp(me, "ar")) return ar(argc, argv);
  if (!strcmp(me, "nm")) return nm(argc, argv);
  if (!strcmp(me, "readelf")) return readelf(argc, argv);
  if (!strcmp(me, "simtool")) return tool(argc, argv);
  return cc(argc, argv);
}
