edits=[('seatd/seat.c','''	if (seat->next_client == client) {
		seat->next_client = NULL;
	}
''','''	if (seat->next_client == client && seat->active_client == NULL) {
		seat->next_client = NULL;
	}
''')]
needs='a client is queued by a switch request and disconnects before the active client acknowledges'
breaks='the queued activation of a client that left is kept: the handover uses freed memory'
cflags='-fsanitize=address -fno-omit-frame-pointer'
demo_c='''
int main(void) {
	mock_init(false);
	int a = mk_client(), b = mk_client();
	open_seat(a); pump(); open_seat(b); pump();
	while (get(a) != -1) {}
	int s = cl(b)->session;
	put(a, CLIENT_SWITCH_SESSION, &s, 4); pump();
	drop(b); pump();
	CHECK(cl(b) == NULL);
	CHECK(theseat()->next_client == NULL);
	put(a, CLIENT_DISABLE_SEAT, NULL, 0); pump();
	CHECK(cl(a) != NULL);
	_exit(0);
}
'''
