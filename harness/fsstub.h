// Stand-ins for file access of the code under test: nothing real is opened, names are recorded by the harness.
#pragma once
#include <sys/types.h>
#include <sys/stat.h>
#include <stdio.h>
#include "ifs.h"
extern "C" { int mp_stat_rec(const char *, unsigned *mode); FILE *mp_fopen(const char *, const char *); int mp_fseek(FILE *, long, int); long mp_ftell(FILE *); void mp_rewind(FILE *); size_t mp_fread(void *, size_t, size_t, FILE *); int mp_fclose(FILE *); }
static inline int mp_stat_(const char *n, struct stat *s) { unsigned m = 0; int r = mp_stat_rec(n, &m); s->st_mode = m; return r; }
#define stat(a, b) mp_stat_(a, b)
#define fopen mp_fopen
#define fseek mp_fseek
#define ftell mp_ftell
#define rewind mp_rewind
#define fread mp_fread
#define fclose mp_fclose
#define odr_setbuf mp_odr_setbuf
#define z_GDU mp_z_GDU
#include <iostream>
#define ifstream mp_ifstream
