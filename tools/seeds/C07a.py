edits=[('seatd/seat.c','''	if (client->state != CLIENT_PENDING_DISABLE) {
		log_error("Could not ack disable: client is not pending disable");''','''	if (client->state != CLIENT_PENDING_DISABLE && client->state != CLIENT_NEW) {
		log_error("Could not ack disable: client is not pending disable");''')]
needs='a client that joined a busy seat and was never enabled sends a disable acknowledgement'
breaks='the acknowledgement of a client that was never asked to disable is accepted'
demo_c='''
int main(void) {
	mock_init(false);
	int a = mk_client(), b = mk_client();
	open_seat(a); pump(); open_seat(b); pump();
	while (get(b) != -1) {}
	put(b, CLIENT_DISABLE_SEAT, NULL, 0); pump();
	int m = get(b), e = 0;
	memcpy(&e, msg, 4);
	CHECK(m == SERVER_ERROR && e == EBUSY, "%x %d", m, e);
	return 0;
}
'''
