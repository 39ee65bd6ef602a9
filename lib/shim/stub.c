/* Recording, content-addressed stand-ins for the build tools (compiler, archiver, linker, nm, readelf, action tool).
   Every call appends <argc> NUL cwd NUL argv... to $VF_LOG. Outputs are hashes of the arguments that matter and of the
   contents read, so an output is up to date exactly when its content equals that of a clean build. */
#include <ctype.h>
#include <errno.h>
#include <fcntl.h>
#include <libgen.h>
#include <limits.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

typedef uint64_t u64;
static u64 h = 1469598103934665603ULL, ih = 1469598103934665603ULL;
static void mixto(u64 *x, const char *s, size_t n) { for (size_t i = 0; i < n; i++) { *x ^= (unsigned char)s[i]; *x *= 1099511628211ULL; } *x ^= 0x9e; *x *= 1099511628211ULL; }
static void mix(const char *s) { mixto(&h, s, strlen(s)); }
/* what was read and written, for $VF_RW: r<path> or w<path>, NUL-terminated, one empty string closing each call */
static char rw[1 << 20]; static size_t nrw; static int failing;
static void note(char k, const char *p) {
  char full[PATH_MAX * 2]; if (*p == '/') strcpy(full, p); else { if (!getcwd(full, PATH_MAX)) return; strcat(full, "/"); strncat(full, p, PATH_MAX - 2); }
  size_t n = strlen(full); if (nrw + n + 3 >= sizeof rw) return; rw[nrw++] = k; memcpy(rw + nrw, full, n + 1); nrw += n + 1;
}
static void flushrw(void) {
  const char *log = getenv("VF_RW"); if (!log || !nrw) return;
  rw[nrw++] = 0; int fd = open(log, O_WRONLY | O_APPEND | O_CREAT, 0666); if (fd >= 0) { if (write(fd, rw, nrw) < 0) {} close(fd); }
}
static char *slurp(const char *p, size_t *n) {
  FILE *f = fopen(p, "rb"); if (!f) return NULL;
  note('r', p);
  size_t cap = 65536, len = 0; char *b = malloc(cap + 1);
  for (;;) { size_t k = fread(b + len, 1, cap - len, f); len += k; if (k == 0) break; if (len == cap) b = realloc(b, (cap *= 2) + 1); }
  fclose(f); b[len] = 0; if (n) *n = len; return b;
}
static void record(int argc, char **argv) {
  const char *log = getenv("VF_LOG"); if (!log) return;
  char cwd[PATH_MAX]; if (!getcwd(cwd, sizeof cwd)) strcpy(cwd, "?");
  size_t n = 32 + strlen(cwd); for (int i = 0; i < argc; i++) n += strlen(argv[i]) + 1;
  char *b = malloc(n), *p = b; p += sprintf(p, "%d", argc) + 1; strcpy(p, cwd); p += strlen(cwd) + 1;
  for (int i = 0; i < argc; i++) { strcpy(p, argv[i]); p += strlen(argv[i]) + 1; }
  int fd = open(log, O_WRONLY | O_APPEND | O_CREAT, 0644); if (fd >= 0) { if (write(fd, b, p - b) < 0) {} close(fd); }
}
static void fail(const char *what, const char *p) { fprintf(stderr, "stub: %s %s: %s\n", what, p, strerror(errno)); exit(1); }
static void put(const char *out, const char *body) {
  unlink(out);  /* never write through a hard link */
  FILE *f = fopen(out, "wb"); if (!f) fail("cannot write", out);
  if (failing) { fputs("torn", f); fclose(f); fprintf(stderr, "stub: told to fail halfway\n"); exit(1); }
  fputs(body, f); fclose(f); note('w', out);
}
/* include scanning */
static char *deps[512]; static int ndeps; static char *incs[256]; static int nincs; static char exports[65536];
static void scan(const char *p) {
  size_t n; char *b = slurp(p, &n); if (!b) fail("cannot read", p);
  mixto(&h, b, n);
  for (char *l = b; l; l = strchr(l, '\n') ? strchr(l, '\n') + 1 : NULL) {
    if (!strncmp(l, "EXPORT ", 7)) { char *e = strchr(l, '\n'); strncat(exports, l + 7, e ? (size_t)(e - l - 6) : strlen(l + 7)); }
    if (strncmp(l, "#include \"", 10)) continue;
    char *q = strchr(l + 10, '"'); if (!q) continue;
    char name[PATH_MAX], path[PATH_MAX * 2]; snprintf(name, sizeof name, "%.*s", (int)(q - l - 10), l + 10);
    char dir[PATH_MAX]; strcpy(dir, p); char *d = dirname(dir); struct stat st;
    if (!strcmp(d, ".")) snprintf(path, sizeof path, "%s", name); else snprintf(path, sizeof path, "%s/%s", d, name);
    int ok = stat(path, &st) == 0;
    for (int i = 0; !ok && i < nincs; i++) { snprintf(path, sizeof path, "%s/%s", incs[i], name); ok = stat(path, &st) == 0; }
    if (!ok) { fprintf(stderr, "stub: no include %s\n", name); exit(1); }
    int seen = 0; for (int i = 0; i < ndeps; i++) seen |= !strcmp(deps[i], path);
    if (!seen && ndeps < 512) { deps[ndeps++] = strdup(path); scan(path); }
  }
  free(b);
}
static int ends(const char *s, const char *e) { size_t a = strlen(s), b = strlen(e); return a >= b && !strcmp(s + a - b, e); }
/* what a link step sees of a file: the interface of a shared library, the whole of anything else */
static void useobj(const char *p, int ar);
static void usearchive(const char *p) {
  size_t n; char *b = slurp(p, &n); if (!b) fail("cannot read", p);
  /* thin archives name their members: one per line after the first */
  if (!strncmp(b, "!thin\n", 6)) { char *s = b + 6, *t; while ((t = strchr(s, '\n'))) { *t = 0; if (*s) useobj(s, 0); s = t + 1; } }
  else { mixto(&h, b, n); char *e = strstr(b, "\nexports "); if (e) strcat(exports, e + 9); }
  free(b);
}
static void useobj(const char *p, int ar) {
  (void)ar;
  if (ends(p, ".a")) { usearchive(p); return; }
  size_t n; char *b = slurp(p, &n); if (!b) fail("cannot read", p);
  char *e = strstr(b, "\nexports ");
  if (ends(p, ".so") || ends(p, ".node")) { mix("so"); if (e) mix(e); }
  else { mixto(&h, b, n); if (e) strcat(exports, e + 9); }
  free(b);
}
static void finish(const char *out, const char *kind) {
  char body[70000]; snprintf(body, sizeof body, "%s %016llx\nexports %s", kind, (unsigned long long)h, exports);
  put(out, body);
}
/* the next word of a response file, quoted as gcc reads it */
static char *word(char **pos) {
  char *r = *pos; while (*r && strchr(" \n\t\r", *r)) r++;
  if (!*r) return NULL;
  char *w = r, *out = r; char q = 0;
  for (; *r && (q || !strchr(" \n\t\r", *r)); r++) {
    if (*r == '\\' && r[1]) *out++ = *++r;
    else if (q && *r == q) q = 0;
    else if (!q && (*r == '"' || *r == '\'')) q = *r;
    else *out++ = *r;
  }
  *pos = *r ? r + 1 : r; *out = 0;
  return w;
}
int main(int argc, char **argv) {
  char *me = strrchr(argv[0], '/'); me = me ? me + 1 : argv[0];
  for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "-dM")) return 0;  /* gyp asks for predefined macros */
  if (strcmp(me, "nm") && strcmp(me, "readelf")) { record(argc, argv); atexit(flushrw); }
  if (getenv("VF_FAIL")) { for (int i = 1; i < argc; i++) if (!strcmp(argv[i], getenv("VF_FAIL"))) { failing = 1; if (getenv("VF_TORN")) break; fprintf(stderr, "stub: told to fail\n"); return 1; } }
  if (!strcmp(me, "nm") || !strcmp(me, "readelf")) {
    char *b = slurp(argv[argc - 1], NULL); if (!b) fail("cannot read", argv[argc - 1]);
    if (!strcmp(me, "readelf")) printf(" SONAME %s\n", argv[argc - 1]);
    else { char *e = strstr(b, "\nexports "); for (char *l = e ? e + 9 : ""; *l;) { char *t = strchr(l, '\n'); int k = t ? (int)(t - l) : (int)strlen(l); printf("%.*s T 0 0\n", k, l); l += k + (t != NULL); } }
    return 0;
  }
  if (!strcmp(me, "strip") || !strcmp(me, "dsymutil")) return 0;
  if (!strcmp(me, "ar")) {  /* ar crs[T] out @list | members */
    if (argc < 3) return 1;
    const char *out = NULL; int thin = strchr(argv[1], 'T') != NULL; char body[65536] = ""; if (thin) strcat(body, "!thin\n");
    for (int i = 2; i < argc; i++) {
      if (argv[i][0] == '-') { mix(argv[i]); continue; }
      if (!out) { out = argv[i]; continue; }
      char *list = NULL; char *members[512]; int nm = 0;
      if (argv[i][0] == '@') { list = slurp(argv[i] + 1, NULL); if (!list) fail("cannot read", argv[i] + 1); for (char *t = strtok(list, "\n "); t; t = strtok(NULL, "\n ")) members[nm++] = t; }
      else members[nm++] = argv[i];
      for (int k = 0; k < nm; k++) {
        if (thin) { struct stat st; if (stat(members[k], &st)) fail("no member", members[k]); note('r', members[k]); strcat(body, members[k]); strcat(body, "\n"); }
        else useobj(members[k], 1);
      }
    }
    if (!out) return 1;
    if (access(out, F_OK) == 0) { fprintf(stderr, "stub: ar onto an existing archive\n"); return 1; }
    if (thin) put(out, body); else finish(out, "ar");
    return 0;
  }
  if (!strcmp(me, "act")) {  /* act [args...] --out o... --in i... [--dep depfile] [--args args...] : every out gets hash(args, contents) */
    int mode = 0; char *outs[64]; int no = 0; char *dep = NULL; char *ins[64]; int ni = 0;
    for (int i = 1; i < argc; i++) {
      if (mode == 4) mix(argv[i]); else if (!strcmp(argv[i], "--args")) mode = 4; else if (!strcmp(argv[i], "--out")) mode = 1; else if (!strcmp(argv[i], "--in")) mode = 2; else if (!strcmp(argv[i], "--dep")) mode = 3;
      else if (mode == 1) outs[no++] = argv[i];
      else if (mode == 2) ins[ni++] = argv[i];
      else if (mode == 3) dep = argv[i];
      else mix(argv[i]);
    }
    for (int i = 0; i < ni; i++) { size_t n; char *b = slurp(ins[i], &n); if (!b) fail("cannot read input", ins[i]); mixto(&h, b, n); free(b); }
    for (int i = 0; i < no; i++) {
      char body[256]; const char *x = strrchr(outs[i], '/'); x = x ? x + 1 : outs[i];
      snprintf(body, sizeof body, "// act %016llx %s\nexports ", (unsigned long long)h, x); put(outs[i], body);
    }
    if (dep) { FILE *f = fopen(dep, "w"); fprintf(f, "%s:", outs[0]); for (int i = 0; i < ni; i++) fprintf(f, " %s", ins[i]); fputc('\n', f); fclose(f); }
    return 0;
  }
  /* cc, cxx */
  const char *out = NULL, *mf = NULL; int compile = 0, shared = 0; char *in[512]; int ni = 0; mix(me);
  char **args = argv; int n = argc;
  for (int i = 1; i < n; i++) {
    char *a = args[i];
    if (!strcmp(a, "-o")) { out = args[++i]; continue; }
    if (!strcmp(a, "-MF")) { mf = args[++i]; continue; }
    if (!strcmp(a, "-MT")) { i++; continue; }
    if (i + 1 < n && (!strcmp(a, "-arch") || !strcmp(a, "-isysroot") || !strcmp(a, "-install_name") || !strcmp(a, "-framework") || !strcmp(a, "-compatibility_version") || !strcmp(a, "-current_version")
        || !strcmp(a, "-Wl,-exported_symbols_list") || !strcmp(a, "-Wl,-unexported_symbols_list"))) { mix(a); mix(args[++i]); continue; }
    if (!strcmp(a, "-MMD")) continue;
    if (!strcmp(a, "-c")) { compile = 1; continue; }
    if (!strcmp(a, "-shared")) shared = 1;
    if (a[0] == '@') {  /* response file of objects */
      char *b = slurp(a + 1, NULL); if (!b) fail("cannot read", a + 1);
      for (char *pos = b, *t; (t = word(&pos));) { if (!strncmp(t, "-I", 2) && t[2] && nincs < 256) incs[nincs++] = t + 2; if (!strcmp(t, "-framework")) { mix(t); if ((t = word(&pos))) mix(t); else break; continue; } if (*t == '-') mix(t); else in[ni++] = t; }
      continue;
    }
    if (!strncmp(a, "-I", 2) && a[2] && nincs < 256) incs[nincs++] = a + 2;
    if (a[0] != '-') in[ni++] = a; else mix(a);
  }
  if (!out) { fprintf(stderr, "stub: no output\n"); return 1; }
  if (compile) {
    if (ni != 1) { fprintf(stderr, "stub: %d inputs\n", ni); return 1; }
    scan(in[0]);
    if (mf) { FILE *f = fopen(mf, "w"); if (!f) fail("cannot write", mf); char o[PATH_MAX]; strcpy(o, out); fprintf(f, "%s: %s", out, in[0]);
      for (int i = 0; i < ndeps; i++) fprintf(f, " \\\n %s", deps[i]); fputc('\n', f); fclose(f); }
    finish(out, "obj");
  } else {
    for (int i = 0; i < ni; i++) useobj(in[i], 0);
    finish(out, shared ? "so" : "exe");
  }
  return 0;
}
