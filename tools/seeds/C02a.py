edits=[('seatd/seat.c','''		if (evdev_revoke(seat_device->fd) == -1) {
			log_errorf("Could not revoke evdev on device fd: %s", strerror(errno));
			return -1;
		}
		break;
''','''		if (evdev_revoke(seat_device->fd) == -1) {
			log_errorf("Could not revoke evdev on device fd: %s", strerror(errno));
			seat_device->active = false;
			return -1;
		}
		break;
''')]
needs='the kernel refuses to revoke an evdev device once, when the client is asked to disable, and the device is closed later'
breaks='a device whose revocation was refused counts as revoked, and its descriptor is closed without another attempt to revoke it'
demo_c='''
static int revoked_before_close, armed;
static void op(const char *what, int fd) {
	if (armed && fd >= 0 && files[fd].used && strcmp(files[fd].path, "/dev/input/event3") == 0 && strcmp(what, "close") == 0)
		revoked_before_close = files[fd].revoked ? 1 : -1;
}
int main(void) {
	mock_init(false);
	int a = mk_client(), b = mk_client();
	open_seat(a); pump(); open_seat(b); pump();
	open_device(a, "/dev/input/event3"); pump();
	on_op = op; armed = 1;
	int s = cl(b)->session;
	fail_revoke_errno = EBUSY;
	put(a, CLIENT_SWITCH_SESSION, &s, 4); pump();
	fail_revoke_errno = 0;
	drop(a); pump();
	CHECK(cl(a) == NULL);
	CHECK(revoked_before_close == 1, "%d", revoked_before_close);
	return 0;
}
'''
