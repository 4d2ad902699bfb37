edits=[('seatd/seat.c','''	log_debug("Releasing VT");
	if (seat->active_client != NULL) {
		seat_disable_client(seat->active_client);
	}

	vt_ack(seat, true);
''','''	log_debug("Releasing VT");
	if (seat->active_client != NULL && seat_disable_client(seat->active_client) == -1) {
		return -1;
	}

	vt_ack(seat, true);
''')]
needs='the kernel asks for the VT again while the active client has not acknowledged its first disable request'
breaks='the release of the VT is not acknowledged when the client cannot be disabled, and the current VT is kept'
demo_c='''
int main(void) {
	mock_init(true);
	int a = mk_client();
	open_seat(a); pump();
	kill_vt(SIGUSR1);
	CHECK(nrel == 1);
	kill_vt(SIGUSR2);
	kill_vt(SIGUSR1);
	CHECK(nrel == 2, "release acknowledged %d times", nrel);
	CHECK(theseat()->cur_vt == -1);
	return 0;
}
'''
