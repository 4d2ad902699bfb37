edits=[('seatd/seat.c','''	seat_update_vt(seat);
	log_debug("Activating VT");
	vt_ack(seat, false);
	if (seat->active_client == NULL) {
		seat_activate(seat);
	}
''','''	seat_update_vt(seat);
	log_debug("Activating VT");
	vt_ack(seat, false);
	if (seat->active_client != NULL && seat->active_client->state == CLIENT_PENDING_DISABLE &&
	    seat->active_client->session != seat->cur_vt) {
		seat->active_client = NULL;
	}
	if (seat->active_client == NULL) {
		seat_activate(seat);
	}
''')]
needs='a VT switch away from a client that has not acknowledged its disable request, to a VT whose client is already on the seat'
breaks='the client of the new VT is enabled while the old one still holds the seat'
demo_c='''
int main(void) {
	mock_init(true);
	int a = mk_client(), b = mk_client();
	open_seat(a); pump();
	kill_vt(SIGUSR1);
	cur_vt = 2;
	kill_vt(SIGUSR2);
	open_seat(b); pump();
	kill_vt(SIGUSR2);
	int m, en = 0;
	while ((m = get(b)) != -1) en |= m == SERVER_ENABLE_SEAT;
	CHECK(!en, "b was enabled although a holds the seat");
	put(a, CLIENT_DISABLE_SEAT, NULL, 0); pump();
	while ((m = get(b)) != -1) en |= m == SERVER_ENABLE_SEAT;
	CHECK(en);
	return 0;
}
'''
