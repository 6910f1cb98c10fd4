// The program: options, start, and stop by signals
#include "fx.h"
#include <metaproxy/router_xml.hpp>
#include <yaz/daemon.h>
#include <yaz/options.h>
#include <yaz/sc.h>
#include <signal.h>
#include <sys/resource.h>
#include <stdexcept>
struct Ends { int code; }; static int exit_code = -1;
static void down(mp::Package &) {}
extern "C" int mp_prog_main(int, char **);
// what the program did
static int live, made, starts, processed, daemons, pgrp, kills, running, limits, deliver_at, point, work_done; static bool test_flag, started, foreign, wd_bad, limit_bad, mode_normal; static std::string base, read_name, cwd, pid_arg, uid_arg, logfile, timef; static unsigned mode; static int stopped[4], nstop, sig_now, limit; static rlim_t lim_cur, lim_max; static int ctor, doc_state;
static void (*handler[32])(int);
static const int PG = 55;
static void at(int p) { if (p == deliver_at && handler[sig_now]) { deliver_at = -1; point = p; handler[sig_now](sig_now); } }
struct Last : public mp::filter::Base { void process(mp::Package &p) const { mp_assert(starts == 1, "started before the first package"); processed++; at(4); if (nstop == 0 && mp_pick(0, 1, "second")) { handler[SIGUSR1](SIGUSR1); } if (nstop && mp_pick(0, 1, "again")) { int n = nstop; handler[SIGTERM](SIGTERM); mp_assert(nstop == n, "stopped once"); } } void configure(const xmlNode *, bool, const char *) {} };
static Last last;
struct LPos : public mp::RoutePos { bool d; const mp::filter::Base *move(const char *) { if (d) return 0; d = true; return &last; } mp::RoutePos *clone() { LPos *p = new LPos; p->d = d; return p; } };
namespace metaproxy_1 { class RouterXML::Rep { }; }
mp::RouterXML::RouterXML(xmlDocPtr, bool t, const char *b) { test_flag = t; base = b ? b : "(null)"; made++; if (ctor == 1) throw std::runtime_error("r"); if (ctor == 2) throw std::logic_error("l"); if (ctor == 3) throw 7; live++; }
mp::RouterXML::RouterXML(std::string, bool) { mp_assert(0, "not used"); }
mp::RouterXML::~RouterXML() { live--; }
mp::RoutePos *mp::RouterXML::createpos() const { LPos *p = new LPos; p->d = false; return p; }
void mp::RouterXML::start() { mp_assert(!test_flag, "a test does not start"); starts++; at(3); }
void mp::RouterXML::stop(int s) { if (nstop < 4) stopped[nstop] = s; nstop++; }
static const char *opt[5]; static int nopt, iopt; static const char codes[] = "cDXlmpstuvw";
extern "C" {
int options(const char *, char **, int, char **arg) { if (iopt >= nopt) return -2; const char *o = opt[iopt++]; *arg = (char *)(o[0] ? o + 1 : "-q"); return o[0] ? o[0] : -1; }
yaz_sc_t yaz_sc_create(const char *, const char *) { return (yaz_sc_t)&live; } void yaz_sc_destroy(yaz_sc_t *) {} void yaz_sc_running(yaz_sc_t) { running++; }
int yaz_sc_program(yaz_sc_t s, int argc, char **argv, int (*m)(yaz_sc_t, int, char **), void (*)(yaz_sc_t)) { return m(s, argc, argv); }
int yaz_daemon(const char *, unsigned m, void (*w)(void *), void *d, const char *pf, const char *uid) { daemons++; mode = m; pid_arg = pf ? pf : ""; uid_arg = uid ? uid : ""; w(d); mp_assert(0, "work does not return"); return 0; }
void yaz_enable_panic_backtrace(const char *) {} void yaz_log_init_prefix(const char *) {} void yaz_log_init_file(const char *f) { logfile = f; } void yaz_log_time_format(const char *f) { timef = f; } int yaz_log_mask_str(const char *) { return 5; } void yaz_log_init_level(int l) { mp_assert(l == 5, "level"); } void yaz_log_xml_errors(const char *, int) {}
unsigned long yaz_version(char *a, char *b) { if (a) *a = 0; if (b) *b = 0; return 0; }
void xmlInitParser(void) {} void xmlCheckVersion(int) {} static xmlDoc thedoc; static int docs;
xmlDocPtr xmlReadFile(const char *f, const char *, int) { read_name = f; if (doc_state == 1) return 0; docs++; return &thedoc; } int xmlXIncludeProcess(xmlDocPtr) { return doc_state == 2 ? -1 : 0; } void xmlFreeDoc(xmlDocPtr) { docs--; }
void (*mp_signal(int s, void (*h)(int)))(int) { handler[s] = h; at(s == SIGTERM ? 1 : s == SIGUSR1 ? 2 : 9); return 0; }
int mp_kill(pid_t p, int s) { mp_assert(p == -PG && s == SIGTERM, "the children are ended"); kills++; return 0; }
int mp_setpgid(pid_t, pid_t) { pgrp++; return 0; } pid_t mp_getpgid(pid_t) { return PG; } pid_t mp_getpid(void) { return foreign && processed ? 8 : 7; }
int mp_chdir(const char *d) { if (wd_bad) return -1; cwd = d; return 0; } int mp_setrlimit(int r, const struct rlimit *l) { mp_assert(r == RLIMIT_NOFILE, "the limit of sockets"); if (limit_bad) return -1; limits++; lim_cur = l->rlim_cur; lim_max = l->rlim_max; return 0; }
[[noreturn]] void mp_exit(int c) { if (exit_code < 0) exit_code = c; throw Ends{c}; }
}
void mp_main(void) {
    static const char *all[] = { "cf.xml", "cd/f.xml", "D", "X", "s100", "pP", "uU", "w/w", "t", "lL", "", "h", "V", "v5", "mM" }; int focus = mp_pick(0, 1, "focus"); // 0: options, 1: signals
    const char *fname = 0, *pf = "", *uid = "", *lim = 0, *wd = ""; unsigned wm = 0; bool test = false, bad = false, ver = false;
    deliver_at = -1; if (focus == 1) { opt[0] = all[0]; nopt = 1; if (mp_pick(0, 1, "daemon")) opt[nopt++] = "D"; } else { nopt = mp_pick(0, NOPT, "options"); for (int i = 0; i < nopt; i++) opt[i] = all[mp_pick(0, i ? 14 : 1, "option")]; wd_bad = mp_pick(0, 1, "no directory"); limit_bad = mp_pick(0, 1, "no limit"); doc_state = mp_pick(0, 2, "document"); if (!doc_state) ctor = mp_pick(0, 3, "configuration"); }
    for (int i = 0; i < nopt && !bad && !ver; i++) switch (opt[i][0]) { case 'c': fname = opt[i] + 1; break; case 'D': wm = YAZ_DAEMON_FORK | YAZ_DAEMON_KEEPALIVE; break; case 'X': wm = YAZ_DAEMON_DEBUG; break; case 's': lim = opt[i] + 1; break; case 'p': pf = opt[i] + 1; break; case 'u': uid = opt[i] + 1; break; case 'w': if (wd_bad) bad = true; else wd = opt[i] + 1; break; case 't': test = true; break; case 'V': ver = true; break; case 0: bad = true; }
    if (focus == 1) { sig_now = mp_pick(0, 1, "signal") ? SIGTERM : SIGUSR1; deliver_at = mp_pick(0, 4, "when"); foreign = mp_pick(0, 1, "in a child"); }
    int first = sig_now; int code = -1; try { mp_prog_main(1, (char **)opt); } catch (Ends &) { code = exit_code; }
    if (ver) { mp_assert(code == 0 && !made && !daemons, "the version"); mp_cover("version"); return; }
    if (bad || !fname || doc_state || ctor) { mp_assert(code == 1 && !daemons && !starts, "what can not be done ends with an error"); mp_assert(made == (bad || !fname || doc_state ? 0 : 1), "no configuration is made of nothing"); mp_cover("refused"); return; }
    mp_assert(made == 1 && read_name == fname && base == (fname[1] == '/' ? "d" : "."), "the configuration that is given"); mp_assert(test_flag == test && cwd == wd, "its directory");
    if (test) { mp_assert(code == 0 && !daemons && !starts && !limits && !live, "a test of the configuration starts nothing"); mp_cover("test"); return; }
    if (lim && limit_bad) { mp_assert(code == 1 && !daemons && !starts, "no start without the sockets asked for"); mp_cover("no limit"); return; }
    mp_assert(lim ? limits == 1 && lim_cur == 100 && lim_max == 100 : !limits, "the limit"); mp_assert(daemons == 1 && mode == (wm | YAZ_DAEMON_LOG_REOPEN), "daemon or debug mode as asked for"); mp_assert(pid_arg == pf && uid_arg == uid && running == 1, "pid file and user"); mp_assert((pgrp > 0) == ((wm & YAZ_DAEMON_FORK) != 0), "a daemon is a group of its own");
    mp_assert(starts == 1 && processed == 1 && code == 0 && !live, "started, run until the end, and released"); mp_cover(wm & YAZ_DAEMON_FORK ? "daemon" : "no daemon");
    if (point && !(foreign && point == 4)) { mp_assert(nstop == 1 && stopped[0] == first, "a signal stops the router, with its number"); mp_assert(kills == (first == SIGTERM), "and its children"); mp_cover("stopped"); }
    mp_assert(nstop <= 1, "stopped once"); if (foreign && !(point >= 1 && point < 4)) mp_assert(nstop == 0, "signals of a child are not for the router");
    mp_cover("done");
}
