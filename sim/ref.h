/* Reference helpers shared by the scenarios: the wire protocol and a driver for the daemon. */
#pragma once
#include "sim.h"
#include <sys/inotify.h>
#include <signal.h>
#include <errno.h>
#include <string.h>
#include <algorithm>
extern int ref_port;                               /* where clients connect (7890 after boot) */
#define PORT ref_port
extern Proc *D;                                    /* the daemon */
Proc *boot(const S &conf, const std::vector<S> &extra = {});  /* conmand -F -c /etc/conman.conf */
Proc *boot_daemon(const S &conf, const std::vector<S> &extra = {});   /* the same in the background */
S quote(const S &s);                               /* protocol quoting */
/* One client session driven by the scenario. */
struct Client {
    Conn *c = nullptr; S user, host = "cli.host", tty = "pts/0"; S raw; int id = 0;
    S data;                                        /* session data received after the final response line */
    std::vector<S> rsp;                            /* response lines */
    bool open(const S &cmd, const std::vector<S> &cons, const S &opts = "");  /* full handshake, settles */
    void begin(const S &cmd, const std::vector<S> &cons, const S &opts = ""); /* connect and send both lines, no settle */
    void pump();                                   /* collect what arrived */
    S fresh();                                     /* pump + return and clear new session data */
    void type(const S &s);                         /* user data (0xFF is doubled) */
    void escape(const S &e);                       /* raw escape: 0xFF + e */
    bool ok() const; int errcode() const; bool closed() const { return c->app_closed(); }
    bool handshaken() const;
    bool linked = false; size_t hdr = 0; int want = 2;
};
struct Msg { S text; size_t pos; };
/* Splits session data into console bytes and informational messages ("\r\n<ConMan> ... \r\n"). */
S strip_info(const S &s, std::vector<S> *msgs = nullptr);
int count_sub(const S &hay, const S &needle);
bool has(const S &hay, const S &needle);
void vproc_die(VProc *v, int status);
S seg_enum(Conn *c, const S &data, int maxcuts);   /* send data in every segmentation (<= maxcuts cuts), settling between pieces */
void expect_alive();
