/* Runs the real server code (server.c, client.c, seat.c, connection.c, poller.c, the primitives) with the kernel's devices and
 * terminals replaced by stand-ins that record what they are asked to do. Nothing outside this process is touched. */
#ifndef MOCK_H
#define MOCK_H
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <unistd.h>
#include "client.h"
#include "linked_list.h"
#include "poller.h"
#include "protocol.h"
#include "seat.h"
#include "server.h"

#define MAXF 1024
struct file {
	bool used, is_tty;
	int vt;
	char path[300];
	bool revoked, master;
	int flags;
};
extern struct file files[MAXF];
extern struct server server;
extern int cur_vt;                /* VT the fake kernel shows */
extern int vt_gfx[64], vt_kbd[64], vt_proc[64]; /* per VT: last mode set (-1 never) */
extern int nrel, nacq, nswitch, switch_to, nopen;
extern int fail_open_errno, fail_revoke_errno, fail_tty;
extern char last_open[300];
extern int last_flags;
extern void (*on_op)(const char *what, int fd); /* called on every fake ioctl and close */

int mk_client(void);
void put(int c, uint16_t op, const void *payload, uint16_t n);
void put_raw(int c, const void *data, size_t n);
void open_seat(int c);
void open_device(int c, const char *path);
void pump(void);
/* next message received by client c, or -1 if there is none; payload in msg, fd in msgfd */
int get(int c);
extern unsigned char msg[70000];
extern int msglen, msgfd;
int closed(int c);   /* did the server close the connection */
void drop(int c);
struct client *cl(int c);
struct seat *theseat(void);
void mock_init(bool vtbound);
int count_fds(void);
struct file *file_of(const char *path); /* the newest open fake file with this path */
int open_files(const char *path);
void kill_vt(int sig); /* deliver SIGUSR1 / SIGUSR2 and dispatch */

#define CHECK(x, ...) do { if (!(x)) { fprintf(stderr, "FAILED %s:%d: %s ", __FILE__, __LINE__, #x); fprintf(stderr, "" __VA_ARGS__); fprintf(stderr, "\n"); exit(1); } } while (0)
#endif
