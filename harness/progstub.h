// Stand-ins for what the program does to its process: recorded by the harness, nothing real is changed.
#pragma once
#pragma redefine_extname signal mp_signal
#pragma redefine_extname kill mp_kill
#pragma redefine_extname setpgid mp_setpgid
#pragma redefine_extname getpgid mp_getpgid
#pragma redefine_extname getpid mp_getpid
#pragma redefine_extname chdir mp_chdir
#pragma redefine_extname setrlimit mp_setrlimit
#pragma redefine_extname setrlimit64 mp_setrlimit
#include <stdlib.h>
#include <cstdlib>
#include <stdio.h>
#include <unistd.h>
#include <signal.h>
#include <string.h>
#include <errno.h>
#include <sys/resource.h>
#include <iostream>
extern "C" { [[noreturn]] void mp_exit(int); int mp_prog_main(int, char **); }
#define exit mp_exit
#define _exit mp_exit
#define main mp_prog_main
#ifndef HAVE_GETRLIMIT
#define HAVE_GETRLIMIT 1
#endif
#ifndef HAVE_UNISTD_H
#define HAVE_UNISTD_H 1
#endif
