// libFuzzer target: any text through the formatter.
#include "compiler.h"
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

int LLVMFuzzerTestOneInput(const uint8_t* in, size_t n) {
    char* z = malloc(n + 1); memcpy(z, in, n); z[n] = 0;
    char* f = cnd_format_source(z);
    if (!f) abort();
    {
        // Nothing but white space changes
        const char *a = z, *b = f;
        for (;; a++, b++) {
            while (*a && strchr(" \t\r\n\v\f", *a)) a++;
            while (*b && strchr(" \t\r\n\v\f", *b)) b++;
            if (*a != *b) { fprintf(stderr, "more than white space changed\n"); abort(); }
            if (!*a) break;
        }
        free(f);
    }
    free(z);
    return 0;
}
