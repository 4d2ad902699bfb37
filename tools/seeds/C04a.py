edits=[('seatd/seat.c','''		if (old_device->device_id >= device_id) {
			device_id = old_device->device_id + 1;
		}
		device_count++;
''','''		device_count++;
		device_id = (int)device_count + 1;
''')]
needs='open two devices, close the first, open a third'
breaks='device ids are no longer distinct: the id of a device that is still open is handed out again'
demo_c='''
static int id_of(int c) { int m, id = -1; while ((m = get(c)) != -1) if (m == SERVER_DEVICE_OPENED) memcpy(&id, msg, 4); return id; }
int main(void) {
	mock_init(false);
	int a = mk_client();
	open_seat(a); pump(); while (get(a) != -1) {}
	open_device(a, "/dev/input/event1"); pump(); int i1 = id_of(a);
	open_device(a, "/dev/input/event2"); pump(); int i2 = id_of(a);
	CHECK(i1 > 0 && i2 > 0 && i1 != i2);
	put(a, CLIENT_CLOSE_DEVICE, &i1, 4); pump(); while (get(a) != -1) {}
	open_device(a, "/dev/input/event3"); pump(); int i3 = id_of(a);
	CHECK(i3 > 0 && i3 != i2, "%d %d", i2, i3);
	put(a, CLIENT_CLOSE_DEVICE, &i3, 4); pump();
	CHECK(open_files("/dev/input/event3") == 0 && open_files("/dev/input/event2") == 1);
	return 0;
}
'''
