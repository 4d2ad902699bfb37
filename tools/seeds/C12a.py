edits=[('seatd/client.c','''		if (msg.path_len != size - sizeof msg) {''','''		if (msg.path_len > size - sizeof msg) {''')]
needs='an open-device message whose header announces more bytes than the path needs'
breaks='the trailing bytes of the message are not consumed and are then read as the next request'
demo_c='''
int main(void) {
	mock_init(false);
	int a = mk_client();
	open_seat(a); pump(); while (get(a) != -1) {}
	unsigned char b[64];
	const char *p = "/dev/input/event1";
	uint16_t l = (uint16_t)(strlen(p) + 1);
	memcpy(b, &l, 2); memcpy(b + 2, p, l);
	struct proto_header h = {.opcode = CLIENT_CLOSE_SEAT, .size = 0};
	memcpy(b + 2 + l, &h, 4);
	put(a, CLIENT_OPEN_DEVICE, b, (uint16_t)(2 + l + 4));
	pump();
	int m; bool smuggled = false;
	while ((m = get(a)) != -1) smuggled |= m == SERVER_SEAT_CLOSED;
	CHECK(!smuggled);
	CHECK(cl(a) == NULL, "the message was accepted");
	return 0;
}
'''
