#define _GNU_SOURCE
#include "mock.h"
#include <dirent.h>
#include <limits.h>
#include <linux/hidraw.h>
#include <linux/input.h>
#include <linux/kd.h>
#include <linux/vt.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#ifndef HIDIOCREVOKE
#define HIDIOCREVOKE _IOW('H', 0x0D, int)
#endif
#define SET_MASTER _IO('d', 0x1e)
#define DROP_MASTER _IO('d', 0x1f)

struct file files[MAXF];
struct server server;
int cur_vt = 1;
int vt_gfx[64], vt_kbd[64], vt_proc[64];
int nrel, nacq, nswitch, switch_to, nopen;
int fail_open_errno, fail_revoke_errno, fail_tty;
char last_open[300];
int last_flags;
void (*on_op)(const char *what, int fd);
static int cfd[64], sfd[64], nclients;
static bool gone[64];
unsigned char msg[70000];
int msglen, msgfd;

int __real_open(const char *path, int flags, ...);
int __real_close(int fd);
int __real_ioctl(int fd, unsigned long req, ...);
char *__real_realpath(const char *p, char *out);

int __wrap_open(const char *path, int flags, ...) {
	bool tty = strncmp(path, "/dev/tty", 8) == 0;
	if (strncmp(path, "/dev/", 5) != 0) {
		errno = ENOENT;
		return -1;
	}
	if (tty && fail_tty) {
		errno = EACCES;
		return -1;
	}
	if (!tty) {
		nopen++;
		last_flags = flags;
		snprintf(last_open, sizeof last_open, "%s", path);
		if (fail_open_errno) {
			errno = fail_open_errno;
			return -1;
		}
	}
	int fd = __real_open("/dev/null", O_RDWR | O_CLOEXEC);
	assert(fd >= 0 && fd < MAXF);
	files[fd] = (struct file){.used = true, .is_tty = tty, .flags = flags};
	snprintf(files[fd].path, sizeof files[fd].path, "%s", path);
	if (tty) files[fd].vt = atoi(path + 8);
	return fd;
}

int __wrap_close(int fd) {
	if (on_op) on_op("close", fd);
	if (fd >= 0 && fd < MAXF) files[fd].used = false;
	return __real_close(fd);
}

int __wrap_dup(int fd);
int __real_dup(int fd);
int __wrap_dup(int fd) {
	return __real_dup(fd);
}

char *__wrap_realpath(const char *p, char *out) {
	if (strncmp(p, "/alias/", 7) == 0) {
		snprintf(out, PATH_MAX, "/dev/%s", p + 7);
		return out;
	}
	if (strncmp(p, "/dev/", 5) != 0 || strstr(p, "missing")) {
		errno = ENOENT;
		return NULL;
	}
	snprintf(out, PATH_MAX, "%s", p);
	return out;
}

int __wrap_ioctl(int fd, unsigned long req, ...) {
	va_list ap;
	va_start(ap, req);
	void *arg = va_arg(ap, void *);
	va_end(ap);
	if (fd < 0 || fd >= MAXF || !files[fd].used) {
		errno = EBADF;
		return -1;
	}
	struct file *f = &files[fd];
	req = (unsigned int)req;
	if (req == SET_MASTER || req == DROP_MASTER || req == (unsigned int)EVIOCREVOKE || req == (unsigned int)HIDIOCREVOKE) {
		if (on_op) on_op(req == SET_MASTER ? "master" : "revoke", fd);
		if (req != SET_MASTER && fail_revoke_errno) {
			errno = fail_revoke_errno;
			return -1;
		}
		f->master = req == SET_MASTER;
		f->revoked = req != SET_MASTER;
		return 0;
	}
	int vt = f->vt == 0 ? cur_vt : f->vt;
	switch (req) {
	case VT_GETSTATE:
		((struct vt_stat *)arg)->v_active = cur_vt;
		return 0;
	case VT_SETMODE:
		vt_proc[vt] = ((struct vt_mode *)arg)->mode == VT_PROCESS;
		return 0;
	case VT_ACTIVATE:
		nswitch++;
		switch_to = (int)(intptr_t)arg;
		return 0;
	case VT_RELDISP:
		if ((int)(intptr_t)arg == VT_ACKACQ) nacq++; else nrel++;
		if (on_op) on_op((int)(intptr_t)arg == VT_ACKACQ ? "ackacq" : "reldisp", fd);
		return 0;
	case KDSETMODE:
		vt_gfx[vt] = (int)(intptr_t)arg == KD_GRAPHICS;
		return 0;
	case KDSKBMODE:
		vt_kbd[vt] = (int)(intptr_t)arg != 4;
		return 0;
	}
	errno = ENOTTY;
	return -1;
}

void mock_init(bool vtbound) {
	for (int i = 0; i < 64; i++) vt_gfx[i] = vt_kbd[i] = vt_proc[i] = -1;
	signal(SIGPIPE, SIG_IGN);
	if (vtbound) unsetenv("SEATD_VTBOUND"); else setenv("SEATD_VTBOUND", "0", 1);
	CHECK(server_init(&server) == 0);
	alarm(60);
}

int mk_client(void) {
	int sv[2];
	CHECK(socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv) == 0);
	CHECK(server_add_client(&server, sv[0]) == 0);
	sfd[nclients] = sv[0];
	cfd[nclients] = sv[1];
	fcntl(sv[1], F_SETFL, O_NONBLOCK);
	return nclients++;
}

void put_raw(int c, const void *data, size_t n) {
	CHECK(send(cfd[c], data, n, MSG_NOSIGNAL) == (ssize_t)n);
}

void put(int c, uint16_t op, const void *payload, uint16_t n) {
	struct proto_header h = {.opcode = op, .size = n};
	unsigned char b[70000];
	memcpy(b, &h, sizeof h);
	if (n) memcpy(b + sizeof h, payload, n);
	put_raw(c, b, sizeof h + n);
}

void open_seat(int c) { put(c, CLIENT_OPEN_SEAT, NULL, 0); }

void open_device(int c, const char *path) {
	unsigned char b[600];
	uint16_t l = (uint16_t)(strlen(path) + 1);
	memcpy(b, &l, 2);
	memcpy(b + 2, path, l);
	put(c, CLIENT_OPEN_DEVICE, b, (uint16_t)(l + 2));
}

void pump(void) {
	for (int k = 0; k < 200; k++) {
		int any = 0;
		for (int i = 0; i < nclients; i++) {
			if (gone[i]) continue;
			if (!cl(i)) { gone[i] = true; continue; }
			struct pollfd p = {.fd = sfd[i], .events = POLLIN};
			if (poll(&p, 1, 0) == 1 && p.revents) any = 1;
		}
		if (!any) return;
		poller_poll(&server.poller);
	}
}

struct client *cl(int c) {
	struct linked_list *heads[2] = {&server.idle_clients, NULL};
	for (struct linked_list *s = server.seats.next; s != &server.seats; s = s->next) heads[1] = &((struct seat *)s)->clients;
	for (int k = 0; k < 2; k++) {
		if (!heads[k]) continue;
		for (struct linked_list *e = heads[k]->next; e != heads[k]; e = e->next)
			if (((struct client *)e)->connection.fd == sfd[c] && !gone[c]) return (struct client *)e;
	}
	return NULL;
}

struct seat *theseat(void) { return (struct seat *)server.seats.next; }

int get(int c) {
	struct proto_header h;
	char cb[CMSG_SPACE(sizeof(int) * 28)];
	struct iovec iov = {.iov_base = &h, .iov_len = sizeof h};
	struct msghdr m = {.msg_iov = &iov, .msg_iovlen = 1, .msg_control = cb, .msg_controllen = sizeof cb};
	msgfd = -1;
	ssize_t r = recvmsg(cfd[c], &m, MSG_DONTWAIT | MSG_CMSG_CLOEXEC);
	if (r != sizeof h) return -1;
	for (struct cmsghdr *cm = CMSG_FIRSTHDR(&m); cm; cm = CMSG_NXTHDR(&m, cm))
		if (cm->cmsg_type == SCM_RIGHTS) memcpy(&msgfd, CMSG_DATA(cm), sizeof(int));
	msglen = h.size;
	if (h.size) {
		struct iovec iov2 = {.iov_base = msg, .iov_len = h.size};
		struct msghdr m2 = {.msg_iov = &iov2, .msg_iovlen = 1, .msg_control = cb, .msg_controllen = sizeof cb};
		if (recvmsg(cfd[c], &m2, MSG_DONTWAIT) != h.size) return -2;
		for (struct cmsghdr *cm = CMSG_FIRSTHDR(&m2); cm; cm = CMSG_NXTHDR(&m2, cm))
			if (cm->cmsg_type == SCM_RIGHTS) memcpy(&msgfd, CMSG_DATA(cm), sizeof(int));
	}
	return h.opcode;
}

int closed(int c) {
	char b;
	ssize_t r = recv(cfd[c], &b, 1, MSG_PEEK | MSG_DONTWAIT);
	return r == 0 || (r == -1 && errno != EAGAIN);
}

void drop(int c) {
	__real_close(cfd[c]);
	cfd[c] = -1;
}

int count_fds(void) {
	int n = 0;
	for (int i = 0; i < MAXF; i++) n += fcntl(i, F_GETFD) != -1;
	return n;
}

struct file *file_of(const char *path) {
	for (int i = MAXF - 1; i >= 0; i--)
		if (files[i].used && strcmp(files[i].path, path) == 0) return &files[i];
	return NULL;
}

int open_files(const char *path) {
	int n = 0;
	for (int i = 0; i < MAXF; i++) n += files[i].used && strcmp(files[i].path, path) == 0;
	return n;
}

void kill_vt(int sig) {
	raise(sig);
	poller_poll(&server.poller);
}
