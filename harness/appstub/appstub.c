#include "App.h"
long verif_app_messages[16];
static TApp app_;
TApp *App = &app_;
#define levels app_.LogLevel
static int inited = 0;
static int verbose = 0;
static void init(void) {
    if (!inited) {
        inited = 1;
        for (int i = 0; i < 64; i++) levels[i] = APP_WARNING;
        verbose = getenv("VERIF_APP_LOG") != NULL;
    }
}
void Lib_Log(TApp_Lib Lib, TApp_LogLevel Level, const char *Format, ...) {
    init();
    verif_app_messages[(Level + 1) & 15]++;
    if (verbose) {
        va_list ap;
        va_start(ap, Format);
        fprintf(stderr, "[%d/%d] ", (int)Lib, (int)Level);
        vfprintf(stderr, Format, ap);
        va_end(ap);
    }
}
static int named(const char *v) {
    static const char *n[] = {"ALWAYS","FATAL","SYSTEM","ERROR","WARNING","INFO","TRIVIAL","DEBUG","EXTRA","QUIET"};
    for (int i = 0; i < 10; i++) if (!strncmp(v, n[i], strlen(n[i]))) return i;
    return -1;
}
int Lib_LogLevel(TApp_Lib Lib, char *Val) {
    init();
    int prev = levels[Lib & 63];
    if (Val) { int l = named(Val); if (l >= 0) levels[Lib & 63] = l; }
    return prev;
}
int Lib_LogLevelNo(TApp_Lib Lib, TApp_LogLevel Val) {
    init();
    int prev = levels[Lib & 63];
    levels[Lib & 63] = Val;
    return prev;
}
void verif_lib_log_f(int lib, int level) { init(); verif_app_messages[(level + 1) & 15]++; (void)lib; }
