edits=[('seatd/seat.c','''	device->path = strdup(sanitized_path);
	if (device->path == NULL) {
		log_errorf("Allocation failed: %s", strerror(errno));
		close(fd);
''','''	device->path = strdup(sanitized_path);
	if (device->path == NULL) {
		log_errorf("Allocation failed: %s", strerror(errno));
''')]
needs='memory runs out exactly while the path of a newly opened device is copied'
breaks='the descriptor of the device stays open and nothing owns it'
extra='-Wl,--wrap=strdup'
demo_c='''
char *__real_strdup(const char *);
static int fail;
char *__wrap_strdup(const char *s) { if (fail) { errno = ENOMEM; return NULL; } return __real_strdup(s); }
int main(void) {
	mock_init(false);
	int a = mk_client();
	open_seat(a); pump(); while (get(a) != -1) {}
	int n = count_fds();
	fail = 1;
	open_device(a, "/dev/input/event1"); pump();
	fail = 0;
	CHECK(get(a) == SERVER_ERROR);
	CHECK(count_fds() == n, "%d descriptors leaked", count_fds() - n);
	return 0;
}
'''
