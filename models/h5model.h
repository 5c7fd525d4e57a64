#pragma once
extern "C" {
extern int mdl_h5_shared;
int mdl_h5_open();
void *mdl_h5_data(const char *file, const char *path, unsigned long *n, unsigned long *esize, int **written);
void *mdl_h5_attr(const char *file, const char *path, const char *name, unsigned long *esize);
}
