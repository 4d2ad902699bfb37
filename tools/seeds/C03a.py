edits=[('seatd/seat.c','''		if (old_device->device_id >= device_id) {
			device_id = old_device->device_id + 1;
		}
		device_count++;
	}

	if (device_count >= MAX_SEAT_DEVICES) {''','''		if (old_device->device_id >= device_id) {
			device_id = old_device->device_id + 1;
		}
		if (old_device->active) {
			device_count++;
		}
	}

	if (device_count >= MAX_SEAT_DEVICES) {''')]
needs='more than 128 devices, some of which were revoked by a session switch'
breaks='revoked devices no longer count against the limit of 128 devices'
demo_c='''
int main(void) {
	mock_init(false);
	int z = mk_client(), a = mk_client(), b = mk_client();
	open_seat(z); pump(); drop(z); pump(); open_seat(a); pump(); open_seat(b); pump();
	int s = cl(b)->session, sa = cl(a)->session;
	char p[64];
	for (int i = 0; i < 100; i++) { sprintf(p, "/dev/input/event%d", i); open_device(a, p); pump(); while (get(a) != -1) if (msgfd != -1) close(msgfd); }
	put(a, CLIENT_SWITCH_SESSION, &s, 4); pump();
	put(a, CLIENT_DISABLE_SEAT, NULL, 0); pump();
	put(b, CLIENT_SWITCH_SESSION, &sa, 4); pump();
	put(b, CLIENT_DISABLE_SEAT, NULL, 0); pump();
	while (get(a) != -1) {}
	for (int i = 100; i < 140; i++) { sprintf(p, "/dev/input/event%d", i); open_device(a, p); pump(); while (get(a) != -1) if (msgfd != -1) close(msgfd); }
	int n = 0;
	for (struct linked_list *e = cl(a)->devices.next; e != &cl(a)->devices; e = e->next) n++;
	CHECK(n <= 128, "%d devices", n);
	return 0;
}
'''
