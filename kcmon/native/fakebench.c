/* Stands for likwid-bench: speeds from a table, all runs are logged with what they reported.
 * $KC_FAKE/kernels: "name MB/s-per-core mode" lines (mode: ok, fail, mute) */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

int main(int argc, char **argv)
{
    char path[4096], name[256], mode[16];
    const char *dir = getenv("KC_FAKE");
    double base;
    long runs = 0;
    FILE *f;
    if (!dir) return 3;
    snprintf(path, sizeof path, "%s/kernels", dir);
    if (argc == 2 && !strcmp(argv[1], "-a")) {
        f = fopen(path, "r");
        while (f && fscanf(f, "%255s %lf %15s", name, &base, mode) == 3)
            printf("%s - Double-precision %s, optimized for - something\n", name, name);
        return 0;
    }
    const char *kernel = NULL, *group = NULL;
    int groups = 0;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "-t") && i + 1 < argc) kernel = argv[++i];
        else if ((!strcmp(argv[i], "-W") || !strcmp(argv[i], "-w")) && i + 1 < argc) { group = argv[++i]; groups++; }
        else { fprintf(stderr, "unknown option %s\n", argv[i]); return 1; }
    }
    if (!kernel || !group) return 1;
    long size = 0, threads = 0, chunk = 0, stride = 0;
    char domain[16];
    if (sscanf(group, "%15[^:]:%ldkB:%ld:%ld:%ld", domain, &size, &threads, &chunk, &stride) < 3) return 1;
    snprintf(path, sizeof path, "%s/kernels", dir);
    f = fopen(path, "r");
    int found = 0;
    while (f && fscanf(f, "%255s %lf %15s", name, &base, mode) == 3)
        if (!strcmp(name, kernel)) { found = 1; break; }
    if (f) fclose(f);
    snprintf(path, sizeof path, "%s/count", dir);
    f = fopen(path, "r");
    if (f) { if (fscanf(f, "%ld", &runs) != 1) runs = 0; fclose(f); }
    f = fopen(path, "w");
    fprintf(f, "%ld\n", runs + 1);
    fclose(f);
    const char *stop = getenv("KC_FAKE_STOP");
    if (!found || !strcmp(mode, "fail") || (stop && runs + 1 > atol(stop))) { fprintf(stderr, "ERROR - cannot run\n"); return 1; }
    if (!strcmp(mode, "mute")) { printf("Time:\t\t1.0 sec\nMByte/s:\t\tnan\n"); return 0; }
    unsigned long h = (unsigned long)runs * 2654435761UL;
    double bw = base * (1 + threads * 0.7) * (1.0 + (h % 1000) / 20000.0) + (size % 13);
    snprintf(path, sizeof path, "%s/log", dir);
    f = fopen(path, "a");
    fprintf(f, "%s %s %ld %ld %ld %ld %d %.2f\n", kernel, domain, size, threads, chunk, stride, groups, bw);
    fclose(f);
    printf("--------------------------------------------------------------------------------\n"
           "LIKWID MICRO BENCHMARK\nTest: %s\n"
           "--------------------------------------------------------------------------------\n"
           "Cycles:\t\t\t%ld\nCPU Clock:\t\t2700000000\nCycle Clock:\t\t2700000000\n"
           "Time:\t\t\t1.000000e+00 sec\nIterations:\t\t1024\nSize (Byte):\t\t%ld\nMFlops/s:\t\t%.2f\n"
           "MByte/s:\t\t%.2f\nCycles per update:\t\t1.5\n", kernel, 100000 + runs, size * 1000, bw / 8, bw);
    return 0;
}
