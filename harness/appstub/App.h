/* Minimal stand-in for the App submodule (absent in this sandbox): logging only.
   It never terminates the program; messages are counted and dropped unless
   VERIF_APP_LOG is set in the environment. */
#ifndef VERIF_APP_STUB_H
#define VERIF_APP_STUB_H
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdarg.h>
#include <math.h>
#include <time.h>
#include <unistd.h>
#include <limits.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/time.h>
#ifndef TRUE
#define TRUE 1
#endif
#ifndef FALSE
#define FALSE 0
#endif
typedef enum { APP_MASTER=0, APP_THREAD=1 } TApp_Type;
typedef enum { APP_VERBATIM=-1, APP_ALWAYS=0, APP_FATAL=1, APP_SYSTEM=2, APP_ERROR=3, APP_WARNING=4, APP_INFO=5, APP_TRIVIAL=6, APP_DEBUG=7, APP_EXTRA=8, APP_QUIET=9 } TApp_LogLevel;
typedef enum { APP_MAIN=0, APP_LIBRMN=1, APP_LIBFST=2, APP_LIBBRP=3, APP_LIBWB=4, APP_LIBGMM=5, APP_LIBVGRID=6, APP_LIBINTERPV=7, APP_LIBGEOREF=8, APP_LIBRPNMPI=9, APP_LIBIRIS=10, APP_LIBIO=11, APP_LIBMDLUTIL=12, APP_LIBDYN=13, APP_LIBPHY=14, APP_LIBMIDAS=15, APP_LIBEER=16, APP_LIBTDPACK=17, APP_LIBMACH=18, APP_LIBSPSDYN=19, APP_LIBMETA=20 } TApp_Lib;
typedef struct { int LogLevel[64]; } TApp;
extern TApp *App;
void Lib_Log(TApp_Lib Lib, TApp_LogLevel Level, const char *Format, ...);
int  Lib_LogLevel(TApp_Lib Lib, char *Val);
int  Lib_LogLevelNo(TApp_Lib Lib, TApp_LogLevel Val);
#endif
