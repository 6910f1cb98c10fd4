// Stand-ins for the processes and pipes of the cgi filter: nothing is started, the harness plays the script.
#pragma once
#pragma redefine_extname close mp_close
#pragma redefine_extname read mp_read
#pragma redefine_extname write mp_write
#pragma redefine_extname dup mp_dup
#pragma redefine_extname dup2 mp_dup2
#pragma redefine_extname pipe mp_pipe
#pragma redefine_extname kill mp_kill
#pragma redefine_extname waitpid mp_waitpid
#pragma redefine_extname chdir mp_chdir
#pragma redefine_extname setenv mp_setenv
#pragma redefine_extname fcntl mp_fcntl
#pragma redefine_extname fcntl64 mp_fcntl
#pragma redefine_extname yaz_poll mp_yaz_poll
#pragma redefine_extname odr_setbuf mp_odr_setbuf
#pragma redefine_extname z_GDU mp_z_GDU
#include <stdlib.h>
#include <cstdlib>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <string.h>
#include <errno.h>
#include <yaz/poll.h>
#include <yaz/zgdu.h>
#include <yaz/odr.h>
extern "C" { pid_t mp_fork(void); int mp_execl(const char *, const char *, ...); [[noreturn]] void mp_exit(int); }
#define fork mp_fork
#define execl mp_execl
#define exit mp_exit
#define _exit mp_exit
