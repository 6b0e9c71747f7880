#include "compiler.h"
int cnd_compile_file(const char* a, const char* b, int c, int d) { (void)a; (void)b; (void)c; (void)d; return 1; }
char* cnd_format_source(const char* s) { (void)s; return 0; }
