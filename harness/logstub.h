// Stand-ins for what the log filter writes with: nothing real is opened or written, the harness records it.
#pragma once
#include <stdio.h>
#include <time.h>
#include <cstdio>
#include <ctime>
#include <yaz/odr.h>
#include <yaz/zgdu.h>
extern "C" { FILE *mp_fopen(const char *, const char *); int mp_fputs(const char *, FILE *); int mp_fputc(int, FILE *); int mp_fflush(FILE *); size_t mp_fwrite(const void *, size_t, size_t, FILE *); size_t mp_strftime(char *, size_t, const char *, const struct tm *); int mp_z_GDU(ODR, Z_GDU **, int, const char *); void mp_odr_set_stream(ODR, void *, void (*)(ODR, void *, int, const char *, int), void (*)(void *)); }
static struct tm mp_the_tm;
static inline struct tm *mp_localtime_r(const time_t *, struct tm *t) { *t = mp_the_tm; return t; }
static inline struct tm *mp_localtime(const time_t *) { return &mp_the_tm; }
#define fopen mp_fopen
#define fputs mp_fputs
#define fputc mp_fputc
#define fflush mp_fflush
#define fwrite mp_fwrite
#define strftime mp_strftime
#define localtime_r mp_localtime_r
#define localtime mp_localtime
#define z_GDU mp_z_GDU
#define odr_set_stream mp_odr_set_stream
