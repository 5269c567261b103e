/* Native replay driver: feeds the solver's assignment to the harness. */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
static FILE *g_f;
static unsigned long g_n;
uint64_t v_next_value(void)
{
    char line[128];
    if (g_f == NULL || fgets(line, sizeof(line), g_f) == NULL) {
        return 0; /* values the solver left unconstrained */
    }
    g_n++;
    return strtoull(line, NULL, 0);
}
void v_fail(const char *msg, const char *file, int line)
{
    printf("REPLAY-FAIL %s (%s:%d) after %lu inputs\n", msg, file, line, g_n);
    fflush(stdout);
    _Exit(42);
}
void v_assume_fail(const char *msg, const char *file, int line)
{
    printf("REPLAY-ASSUME %s (%s:%d)\n", msg, file, line);
    fflush(stdout);
    _Exit(77);
}
void v_witness(const char *msg) { printf("REPLAY-WITNESS %s\n", msg); }
extern void V_ENTRY(void);
int main(int argc, char **argv)
{
    if (argc > 1) {
        g_f = fopen(argv[1], "r");
    }
    V_ENTRY();
    printf("REPLAY-OK\n");
    return 0;
}
