edits=[('seatd/seat.c','''		next_client = seat->next_client;
		seat->next_client = NULL;
''','''		next_client = seat->next_client;
''')]
needs='two session switches in a row on a seat without VTs: the target of the first one later requests a switch itself'
breaks='the queued client is not consumed by the handover, so the next switch request counts as already queued and is silently ignored'
demo_c='''
int main(void) {
	mock_init(false);
	int z = mk_client(), a = mk_client(), b = mk_client();
	open_seat(z); pump(); open_seat(a); pump(); open_seat(b); pump();
	while (get(a) != -1) {}
	int s = cl(b)->session, sa = cl(a)->session;
	put(z, CLIENT_SWITCH_SESSION, &sa, 4); pump();
	put(z, CLIENT_DISABLE_SEAT, NULL, 0); pump();
	CHECK(get(a) == SERVER_ENABLE_SEAT);
	put(a, CLIENT_SWITCH_SESSION, &s, 4); pump();
	int m, dis = 0;
	while ((m = get(a)) != -1) dis |= m == SERVER_DISABLE_SEAT;
	CHECK(dis, "the second switch has no effect");
	return 0;
}
'''
