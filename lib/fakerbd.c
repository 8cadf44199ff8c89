/* A fake `rbd` command: images and snapshots are plain files below $FAKE_RBD.
 *
 *   $FAKE_RBD/<pool>/<image>/head          current content
 *   $FAKE_RBD/<pool>/<image>/snap/<name>   snapshots
 *   $FAKE_RBD/<pool>/<image>/protected/<name>  snapshot cannot be removed
 *   $FAKE_RBD/maps/<n>                     "pool image snap" of mapping n
 *   $FAKE_RBD/cfg                          key value lines (see below)
 *   $FAKE_RBD/log                          one line per command
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

static char *root;
/* configuration */
static long gran = 4194304, zmode = 1, redundant = 0, seed = 1, maxw = 0, nosizerec = 0;
static char version[256] = "ceph version 14.2.22 (ca74598065096e6fcbd8433c8779a2be0c889351) nautilus (stable)";
static int fmt_list = 1;
static long mutate_off = -1; static long mutate_xor = 0; static long mutate_len = 1; static long mutate_size = -1;
static long mutate_cmd = -1;
/* fault of this command */
static char fault[32] = ""; static long farg = 0;
static long fault_n = -1; static char fault_cmd[64] = "";
static long nodev = 0;
static long block_n = -1; static char block_cmd[64] = "";

static long out_left = -1; /* bytes of stdout until the fault fires */

static void die_fault(void) {
    fflush(stdout);
    if (!strcmp(fault, "kill")) { kill(getpid(), SIGKILL); }
    _exit(strcmp(fault, "kill") ? 1 : 137);
}
static void emit(const void *p, size_t n) {
    const char *c = p;
    while (n) {
        size_t k = n;
        if (out_left >= 0 && (long)k > out_left) k = out_left;
        size_t done = 0;
        while (done < k) {
            ssize_t w = write(1, c + done, k - done);
            if (w < 0) { if (errno == EINTR) continue; _exit(141); }
            done += w;
        }
        c += k; n -= k;
        if (out_left >= 0) { out_left -= k; if (out_left == 0 && n) die_fault(); }
    }
}
static void emits(const char *s) { emit(s, strlen(s)); }

static int split(const char *spec, char *pool, char *img, char *snap) {
    const char *sl = strchr(spec, '/'); if (!sl) return -1;
    const char *at = strchr(sl, '@');
    snprintf(pool, 256, "%.*s", (int)(sl - spec), spec);
    if (at) { snprintf(img, 256, "%.*s", (int)(at - sl - 1), sl + 1); snprintf(snap, 256, "%s", at + 1); }
    else { snprintf(img, 256, "%s", sl + 1); snap[0] = 0; }
    return 0;
}
static void path_of(char *out, const char *pool, const char *img, const char *snap) {
    if (snap[0]) snprintf(out, 2048, "%s/%s/%s/snap/%s", root, pool, img, snap);
    else snprintf(out, 2048, "%s/%s/%s/head", root, pool, img);
}
static int copyfile(const char *a, const char *b) {
    int i = open(a, O_RDONLY); if (i < 0) return -1;
    char tmp[2200]; snprintf(tmp, sizeof tmp, "%s.tmp%d", b, getpid());
    int o = open(tmp, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (o < 0) return -1;
    static char buf[1 << 20]; ssize_t n; off_t pos = 0;
    while ((n = read(i, buf, sizeof buf)) > 0) {
        int nz = 0; for (ssize_t k = 0; k < n; k++) if (buf[k]) { nz = 1; break; }
        if (nz && pwrite(o, buf, n, pos) != n) return -1;
        pos += n;
    }
    if (ftruncate(o, pos)) return -1;
    close(i); close(o);
    return rename(tmp, b);
}
static uint64_t rs;
static uint32_t rnd(void) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; return rs >> 33; }

static unsigned char *mapf(const char *p, size_t *len) {
    int fd = open(p, O_RDONLY); if (fd < 0) return NULL;
    struct stat st; fstat(fd, &st); *len = st.st_size;
    if (!st.st_size) { close(fd); return (unsigned char *)""; }
    unsigned char *m = mmap(NULL, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
    close(fd); return m == MAP_FAILED ? NULL : m;
}
static int allzero(const unsigned char *p, size_t n) {
    if (!n) return 1; return p[0] == 0 && !memcmp(p, p + 1, n - 1);
}
static void rec(char t, uint64_t off, uint64_t len, const unsigned char *data) {
    if (t == 'z' || !maxw) {
        unsigned char h[17]; h[0] = t; memcpy(h + 1, &off, 8); memcpy(h + 9, &len, 8); emit(h, 17);
        if (t == 'w') emit(data + off, len);
        return;
    }
    while (len) {
        uint64_t k = len > (uint64_t)maxw ? (uint64_t)maxw : len;
        unsigned char h[17]; h[0] = t; memcpy(h + 1, &off, 8); memcpy(h + 9, &k, 8); emit(h, 17);
        emit(data + off, k); off += k; len -= k;
    }
}
static void strrec(char t, const char *s) {
    int32_t n = strlen(s); emit(&t, 1); emit(&n, 4); emit(s, n);
}
struct ent { char name[256]; struct timespec t; off_t size; };
static int cmp(const void *a, const void *b) {
    const struct ent *x = a, *y = b;
    if (x->t.tv_sec != y->t.tv_sec) return x->t.tv_sec < y->t.tv_sec ? -1 : 1;
    if (x->t.tv_nsec != y->t.tv_nsec) return x->t.tv_nsec < y->t.tv_nsec ? -1 : 1;
    return strcmp(x->name, y->name);
}
static int rc(int code) {
    fflush(stdout);
    if (!strcmp(fault, "exitafter")) return (int)farg;
    if (!strcmp(fault, "killparentafter")) { kill(getppid(), SIGKILL); }
    return code;
}

int main(int argc, char **argv) {
    root = getenv("FAKE_RBD"); if (!root) { fprintf(stderr, "FAKE_RBD unset\n"); return 99; }
    char p[2048], line[4096];
    signal(SIGPIPE, SIG_DFL);
    /* name of the command */
    char cmd[64]; const char *first = argc > 1 ? argv[1] : "";
    if (!strcmp(first, "snap") && argc > 2) snprintf(cmd, 64, "snap-%s", argv[2]);
    else snprintf(cmd, 64, "%s", first);
    /* the log, also the command counter */
    snprintf(p, 2048, "%s/log", root);
    int lf = open(p, O_RDWR | O_CREAT | O_APPEND, 0644);
    flock(lf, LOCK_EX);
    FILE *lr = fopen(p, "r"); long count = 0, ccount = 0;
    if (lr) {
        while (fgets(line, sizeof line, lr)) { count++; size_t k = strlen(cmd); if (!strncmp(line, cmd, k) && line[k] == '\t') ccount++; }
        fclose(lr);
    }
    line[0] = 0; snprintf(line, 4000, "%s\t", cmd);
    for (int i = 1; i < argc; i++) { strncat(line, argv[i], 300); strcat(line, " "); if (strlen(line) > 3500) break; }
    strcat(line, "\n"); if (write(lf, line, strlen(line)) < 0) return 98;
    flock(lf, LOCK_UN); close(lf);
    /* configuration */
    snprintf(p, 2048, "%s/cfg", root);
    FILE *c = fopen(p, "r");
    if (c) {
        while (fgets(line, sizeof line, c)) {
            char k[64] = "", v[300] = ""; line[strcspn(line, "\n")] = 0;
            char *sp = strchr(line, ' '); if (!sp) continue; *sp = 0; snprintf(k, 64, "%s", line); snprintf(v, 300, "%s", sp + 1);
            if (!strcmp(k, "gran")) gran = atol(v); else if (!strcmp(k, "zmode")) zmode = atol(v);
            else if (!strcmp(k, "redundant")) redundant = atol(v); else if (!strcmp(k, "seed")) seed = atol(v);
            else if (!strcmp(k, "maxw")) maxw = atol(v); else if (!strcmp(k, "version")) snprintf(version, 256, "%s", v);
            else if (!strcmp(k, "nosizerec")) nosizerec = atol(v);
            else if (!strcmp(k, "showlist")) fmt_list = atol(v);
            else if (!strcmp(k, "nodev")) nodev = atol(v);
            else if (!strcmp(k, "mutate")) sscanf(v, "%ld %ld %ld %ld", &mutate_off, &mutate_xor, &mutate_len, &mutate_size);
            /* fault <n> <mode> <arg>: n-th command overall; faultcmd <cmd> <n> <mode> <arg>: n-th of that command */
            else if (!strcmp(k, "fault")) { long n, a = 0; char m[32]; if (sscanf(v, "%ld %31s %ld", &n, m, &a) >= 2 && n == count) { strcpy(fault, m); farg = a; } }
            else if (!strcmp(k, "faultcmd")) { long n, a = 0; char m[32], cc[64]; if (sscanf(v, "%63s %ld %31s %ld", cc, &n, m, &a) >= 3 && !strcmp(cc, cmd) && (n == ccount || n < 0)) { strcpy(fault, m); farg = a; } }
            else if (!strcmp(k, "block")) { long n; char cc[64]; if (sscanf(v, "%63s %ld", cc, &n) == 2 && !strcmp(cc, cmd) && n == ccount) block_n = 1; }
        }
        fclose(c);
    }
    if (block_n >= 0) {
        snprintf(p, 2048, "%s/blocked", root); int b = open(p, O_WRONLY | O_CREAT, 0644); close(b);
        snprintf(p, 2048, "%s/go", root);
        for (int i = 0; i < 60000 && access(p, F_OK); i++) usleep(1000);
    }
    if (!strcmp(fault, "exit")) return (int)farg;
    if (!strcmp(fault, "killparent")) { kill(getppid(), SIGKILL); usleep(2000); return 1; }
    if (!strcmp(fault, "killnow")) { kill(getpid(), SIGKILL); }
    if (!strcmp(fault, "garbage")) { emits("{\"garbage\": [1, "); return 0; }
    if (!strcmp(fault, "empty")) { return 0; }
    if (!strcmp(fault, "trunc") || !strcmp(fault, "kill")) { out_left = farg; if (farg == 0) die_fault(); }

    char pool[256] = "", img[256] = "", snap[256] = "", a[2048], b[2048];
    struct stat st;
    if (!strcmp(first, "--version")) { emits(version); emits("\n"); return rc(0); }
    if (!strcmp(first, "help")) { emits("usage: rbd export-diff [--whole-object]\n"); return rc(0); }
    if (!strcmp(first, "info")) {
        if (split(argv[2], pool, img, snap)) return 22;
        path_of(a, pool, img, snap);
        if (stat(a, &st)) { return 2; }
        snprintf(line, sizeof line, "{\"name\":\"%s\",\"size\":%lld,\"objects\":1,\"order\":22}\n", img, (long long)st.st_size);
        emits(line); return rc(0);
    }
    if (!strcmp(cmd, "snap-create")) {
        if (split(argv[3], pool, img, snap) || !snap[0]) return 22;
        path_of(a, pool, img, ""); path_of(b, pool, img, snap);
        if (stat(a, &st)) return 2;
        if (!stat(b, &st)) return 17;
        if (copyfile(a, b)) return 5;
        return rc(0);
    }
    if (!strcmp(cmd, "snap-rm")) {
        if (split(argv[3], pool, img, snap) || !snap[0]) return 22;
        path_of(a, pool, img, snap);
        if (stat(a, &st)) return 2;
        snprintf(b, 2048, "%s/%s/%s/protected/%s", root, pool, img, snap);
        if (!stat(b, &st)) return 16;
        if (unlink(a)) return 5;
        return rc(0);
    }
    if (!strcmp(cmd, "snap-ls")) {
        if (split(argv[3], pool, img, snap)) return 22;
        path_of(a, pool, img, ""); if (stat(a, &st)) return 2;
        snprintf(a, 2048, "%s/%s/%s/snap", root, pool, img);
        DIR *d = opendir(a); static struct ent e[512]; int n = 0; struct dirent *de;
        while (d && (de = readdir(d)) && n < 512) {
            if (de->d_name[0] == '.' || strstr(de->d_name, ".tmp")) continue;
            snprintf(b, 2048, "%s/%s", a, de->d_name); if (stat(b, &st)) continue;
            snprintf(e[n].name, 256, "%s", de->d_name); e[n].t = st.st_mtim; e[n].size = st.st_size; n++;
        }
        qsort(e, n, sizeof e[0], cmp);
        emits("[");
        for (int i = 0; i < n; i++) {
            snprintf(line, sizeof line, "%s{\"id\":%d,\"name\":\"%s\",\"size\":%lld,\"protected\":\"false\",\"timestamp\":\"Tue Jan  1 00:00:00 2019\"}",
                     i ? "," : "", i + 1, e[i].name, (long long)e[i].size);
            emits(line);
        }
        emits("]\n"); return rc(0);
    }
    if (!strcmp(first, "map")) {
        if (split(argv[2], pool, img, snap)) return 22;
        path_of(a, pool, img, snap); if (stat(a, &st)) return 2;
        snprintf(p, 2048, "%s/maps", root); mkdir(p, 0755);
        int n = 0; for (;; n++) { snprintf(p, 2048, "%s/maps/%d", root, n); int fd = open(p, O_WRONLY | O_CREAT | O_EXCL, 0644); if (fd >= 0) {
            char dev[2100]; snprintf(dev, sizeof dev, "%s", a);
            if (mutate_off >= 0 || mutate_size >= 0) {
                snprintf(dev, sizeof dev, "%s.dev", p); snprintf(b, 2048, "%s/mapdev%d", root, n); strcpy(dev, b); copyfile(a, dev);
                int m = open(dev, O_RDWR); if (m >= 0) { if (mutate_size >= 0) ftruncate(m, mutate_size);
                    static unsigned char mb[65536];
                    for (long i = 0; mutate_off >= 0 && i < mutate_len; ) { long k = mutate_len - i < 65536 ? mutate_len - i : 65536; k = pread(m, mb, k, mutate_off + i); if (k <= 0) break;
                        for (long j = 0; j < k; j++) mb[j] ^= mutate_xor; if (pwrite(m, mb, k, mutate_off + i) != k) return 1; i += k; } close(m); }
            }
            if (nodev) snprintf(dev, sizeof dev, "%s/nodev%d", root, n);
            dprintf(fd, "%s %s %s %s\n", pool, img, snap, dev); close(fd); break; } if (n > 1000) return 5; }
        snprintf(line, sizeof line, "/dev/rbd%d\n", n); emits(line); return rc(0);
    }
    if (!strcmp(first, "showmapped")) {
        emits(fmt_list ? "[" : "{"); int k = 0;
        for (int n = 0; n < 64; n++) {
            snprintf(p, 2048, "%s/maps/%d", root, n); FILE *f = fopen(p, "r"); if (!f) continue;
            char dev[2048]; if (fscanf(f, "%255s %255s %255s %2047s", pool, img, snap, dev) != 4) { fclose(f); continue; } fclose(f);
            snprintf(line, sizeof line, "%s", k++ ? "," : ""); emits(line);
            if (fmt_list) snprintf(line, sizeof line, "{\"id\":\"%d\",\"pool\":\"%s\",\"namespace\":\"\",\"name\":\"%s\",\"snap\":\"%s\",\"device\":\"%s\"}", n, pool, img, snap, dev);
            else snprintf(line, sizeof line, "\"%d\":{\"pool\":\"%s\",\"name\":\"%s\",\"snap\":\"%s\",\"device\":\"%s\"}", n, pool, img, snap, dev);
            emits(line);
        }
        emits(fmt_list ? "]\n" : "}\n"); return rc(0);
    }
    if (!strcmp(first, "unmap")) {
        for (int n = 0; n < 64; n++) {
            snprintf(p, 2048, "%s/maps/%d", root, n); FILE *f = fopen(p, "r"); if (!f) continue;
            char dev[2048]; int ok = fscanf(f, "%255s %255s %255s %2047s", pool, img, snap, dev) == 4; fclose(f);
            if (ok) snprintf(a, sizeof a, "%s/%s@%s", pool, img, snap);
            if (ok && (!strcmp(dev, argv[2]) || !strcmp(a, argv[2]))) { unlink(p); return rc(0); }
        }
        return 22;
    }
    if (!strcmp(first, "export")) {
        if (split(argv[2], pool, img, snap)) return 22;
        path_of(a, pool, img, snap); size_t n; unsigned char *m = mapf(a, &n); if (!m) return 2;
        emit(m, n); return rc(0);
    }
    if (!strcmp(first, "export-diff")) {
        const char *from = NULL; int whole = 0;
        for (int i = 3; i < argc; i++) { if (!strcmp(argv[i], "--from-snap") && i + 1 < argc) from = argv[++i]; else if (!strcmp(argv[i], "--whole-object")) whole = 1; }
        if (split(argv[2], pool, img, snap) || !from) return 22;
        path_of(a, pool, img, from); path_of(b, pool, img, snap);
        size_t nf, nt; unsigned char *f = mapf(a, &nf), *t = mapf(b, &nt); if (!f || !t) return 2;
        { char rp[2048]; size_t rn; snprintf(rp, 2048, "%s/rawdiff", root); unsigned char *rm = mapf(rp, &rn); if (rm) { emit(rm, rn); return rc(0); } }
        long g = whole ? 4194304 : gran; rs = seed * 2654435761ULL + 12345;
        emits("rbd diff v1\n"); strrec('f', from); strrec('t', snap);
        { char s = 's'; uint64_t z = nt; emit(&s, 1); emit(&z, 8); }
        char cur = 0; uint64_t cs = 0, cl = 0;
        for (uint64_t o = 0; o < nt; o += g) {
            uint64_t len = nt - o < (uint64_t)g ? nt - o : (uint64_t)g;
            int diff;
            uint64_t common = o >= nf ? 0 : (nf - o < len ? nf - o : len);
            diff = (common && memcmp(f + o, t + o, common)) || (common < len && !allzero(t + o + common, len - common));
            if (!diff && redundant && (long)(rnd() % 1000) < redundant) diff = 1;
            char ty = 0;
            if (diff) ty = (allzero(t + o, len) && (zmode == 1 || (zmode == 2 && len % 4194304 == 0))) ? 'z' : 'w';
            if (ty && ty == cur && cs + cl == o) { cl += len; continue; }
            if (cur) rec(cur, cs, cl, t);
            cur = ty; cs = o; cl = len;
        }
        if (cur) rec(cur, cs, cl, t);
        emits("e"); return rc(0);
    }
    fprintf(stderr, "fakerbd: unknown command %s\n", first);
    return 1;
}
