/* stands in for git: mv renames, rm removes, add and everything else only succeed; SIMFS_GIT=fail makes every command fail */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
int main(int c, char** v) {
    const char* m = getenv("SIMFS_GIT"); if (m && !strcmp(m, "fail")) { fprintf(stderr, "fatal: not a git repository\n"); return 128; }
    int force = 0, i = 1; const char* a[8]; int n = 0; while (i < c && v[i][0] == '-') { if (!strcmp(v[i], "-C") && i + 1 < c) { if (chdir(v[i + 1])) return 128; i++; } i++; }
    if (i >= c) return 1; const char* cmd = v[i++];
    for (; i < c; i++) if (!strcmp(v[i], "-f")) force = 1; else if (v[i][0] != '-' && n < 8) a[n++] = v[i];
    if (!strcmp(cmd, "mv")) { if (n != 2) return 129; if (!force && !access(a[1], F_OK)) { fprintf(stderr, "fatal: destination exists\n"); return 128; } if (access(a[0], F_OK)) { fprintf(stderr, "fatal: bad source\n"); return 128; } return rename(a[0], a[1]) ? 128 : 0; }
    if (!strcmp(cmd, "rm")) { for (int k = 0; k < n; k++) if (unlink(a[k]) && !force) return 128; return 0; }
    return 0;
}
