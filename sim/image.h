#pragma once
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
struct image {
    const char *name, *base;
    int (*main)(int, char **);
    void **api;
    FILE **in, **out, **err;
    char *data0, *data1, *bss0, *bss1;
};
extern struct image g_images[];
extern int g_nimages;
#ifdef __cplusplus
}
#endif
