From eea588386c8e296b0aae253751d2fdbb3eee58e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 01/19] fix: return the existing device when an open path is
 opened again

seat_open_device increased the reference count of the device but returned
NULL, so the client was sent an error (with a stale errno) and could never
drop the reference it did not know about.
---
 seatd/seat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index 700bb63..d81f839 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -360,7 +360,7 @@ struct seat_device *seat_open_device(struct client *client, const char *path) {
 
 		if (strcmp(old_device->path, sanitized_path) == 0) {
 			old_device->ref_cnt++;
-			return device;
+			return old_device;
 		}
 
 		if (old_device->device_id >= device_id) {
-- 
2.43.0


From 3ab7112d7bd36c55096d5fe778b29afeb3a794aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 02/19] fix: restore the VT of the client that leaves, not the
 current VT

When the active client left while a VT switch was in progress, cur_vt was
-1 (hitting the assertion in get_tty_path) or already another client's VT,
and the VT of the leaving client was left in graphics mode.
---
 seatd/seat.c | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index d81f839..e5b76b2 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -271,17 +271,11 @@ void seat_remove_client(struct client *client) {
 	}
 
 	if (seat->vt_bound) {
-		if (was_current && seat->active_client == NULL) {
-			// This client was current, but there were no clients
-			// waiting to take this VT, so clean it up.
-			log_debug("Closing active VT");
-			vt_close(seat->cur_vt);
-		} else if (!was_current && client->state != CLIENT_CLOSED) {
-			// This client was not current, but as the client was
-			// running, we need to clean up the VT.
-			log_debug("Closing inactive VT");
-			vt_close(client->session);
-		}
+		// A VT belongs to exactly one client, so clean up the VT of the
+		// leaving client. The current VT may be unknown or may already
+		// belong to another client.
+		log_debug("Closing VT");
+		vt_close(client->session);
 	}
 
 	client->state = CLIENT_CLOSED;
-- 
2.43.0


From 112a88e77e309b08672c882f7ff2a43a777c82a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 03/19] fix: refuse to open a terminal for an unknown VT
 instead of aborting

seat->cur_vt is -1 after a VT release or a failed VT_GETSTATE, and the VT
signal handlers open the terminal of cur_vt.
---
 common/terminal.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/common/terminal.c b/common/terminal.c
index 570cd7f..d9eeda1 100644
--- a/common/terminal.c
+++ b/common/terminal.c
@@ -37,7 +37,10 @@
 
 #if defined(__FreeBSD__)
 static int get_tty_path(int tty, char path[static TTYPATHLEN]) {
-	assert(tty >= 0);
+	if (tty < 0) {
+		errno = EINVAL;
+		return -1;
+	}
 
 	const char prefix[] = "/dev/ttyv";
 	const size_t prefix_len = sizeof(prefix) - 1;
@@ -133,7 +136,10 @@ static int get_tty_path(int tty, char path[static TTYPATHLEN]) {
 }
 #elif defined(__linux__)
 static int get_tty_path(int tty, char path[static TTYPATHLEN]) {
-	assert(tty >= 0);
+	if (tty < 0) {
+		errno = EINVAL;
+		return -1;
+	}
 	if (snprintf(path, TTYPATHLEN, "/dev/tty%d", tty) == -1) {
 		return -1;
 	}
@@ -141,7 +147,10 @@ static int get_tty_path(int tty, char path[static TTYPATHLEN]) {
 }
 #elif defined(__NetBSD__)
 static int get_tty_path(int tty, char path[static TTYPATHLEN]) {
-	assert(tty >= 0);
+	if (tty < 0) {
+		errno = EINVAL;
+		return -1;
+	}
 	if (snprintf(path, TTYPATHLEN, "/dev/ttyE%d", tty) == -1) {
 		return -1;
 	}
-- 
2.43.0


From be301007193ac764196c6a805ed91fa82cf8f4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 04/19] fix: never let two clients of a VT-bound seat share a
 VT

The check was skipped while no client was active, so a second client could
join on the VT of a disabled client and get the same session number.
---
 seatd/seat.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/seatd/seat.c b/seatd/seat.c
index e5b76b2..c3b8365 100644
--- a/seatd/seat.c
+++ b/seatd/seat.c
@@ -216,15 +216,13 @@ int seat_add_client(struct seat *seat, struct client *client) {
 			errno = EINVAL;
 			return -1;
 		}
-		if (seat->active_client != NULL) {
-			for (struct linked_list *elem = seat->clients.next; elem != &seat->clients;
-			     elem = elem->next) {
-				struct client *client = (struct client *)elem;
-				if (client->session == seat->cur_vt) {
-					log_error("Could not add client: seat is VT-bound and already has pending client");
-					errno = EBUSY;
-					return -1;
-				}
+		for (struct linked_list *elem = seat->clients.next; elem != &seat->clients;
+		     elem = elem->next) {
+			struct client *client = (struct client *)elem;
+			if (client->session == seat->cur_vt) {
+				log_error("Could not add client: seat is VT-bound and already has a client on this VT");
+				errno = EBUSY;
+				return -1;
 			}
 		}
 		client->session = seat->cur_vt;
-- 
2.43.0


From 908fd335088e663902ff103f1fc333adc59f6af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 05/19] fix: close the duplicated device fd if it cannot be
 queued

---
 seatd/client.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seatd/client.c b/seatd/client.c
index ef5d625..e0c0a2c 100644
--- a/seatd/client.c
+++ b/seatd/client.c
@@ -239,6 +239,7 @@ static int handle_open_device(struct client *client, char *path) {
 
 	if (connection_put_fd(&client->connection, dupfd) == -1) {
 		log_errorf("Could not queue fd for sending: %s", strerror(errno));
+		close(dupfd);
 		return -1;
 	}
 
-- 
2.43.0


From e7f06f761e4d707b66d1d609a1e230ee92be1662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 06/19] fix: check the accepted descriptor for failure, not the
 listening one

---
 seatd/server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seatd/server.c b/seatd/server.c
index 47d6e91..539724d 100644
--- a/seatd/server.c
+++ b/seatd/server.c
@@ -158,7 +158,7 @@ int server_handle_connection(int fd, uint32_t mask, void *data) {
 
 	if (mask & EVENT_READABLE) {
 		int new_fd = accept(fd, NULL, NULL);
-		if (fd == -1) {
+		if (new_fd == -1) {
 			log_errorf("Could not accept client connection: %s", strerror(errno));
 			return 0;
 		}
-- 
2.43.0


From 412dc6bbd24e558114656d0d394374633d775a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 07/19] fix: do not lose a signal raised while its handler is
 running

---
 seatd/poller.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seatd/poller.c b/seatd/poller.c
index ceadb24..1ec70b8 100644
--- a/seatd/poller.c
+++ b/seatd/poller.c
@@ -287,8 +287,10 @@ static void dispatch(struct poller *poller) {
 			if (!bps->raised || bps->killed) {
 				continue;
 			}
-			bps->func(bps->signal, bps->data);
+			// Clear first: the signal may be raised again while the
+			// handler is running.
 			bps->raised = false;
+			bps->func(bps->signal, bps->data);
 		}
 	}
 
-- 
2.43.0


From c171cae9fb103d011303fe88de611223cd5bb7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 08/19] fix: restore the default disposition with the last
 signal source

The source being destroyed was counted as a remaining user of the signal, so
the handler was never removed.
---
 seatd/poller.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seatd/poller.c b/seatd/poller.c
index 1ec70b8..0c58c6a 100644
--- a/seatd/poller.c
+++ b/seatd/poller.c
@@ -177,6 +177,7 @@ struct event_source_signal *poller_add_signal(struct poller *poller, int signal,
 int event_source_signal_destroy(struct event_source_signal *event_source) {
 	struct event_source_signal *bps = (struct event_source_signal *)event_source;
 	struct poller *poller = bps->poller;
+	bps->killed = true;
 
 	int refcnt = 0;
 	for (struct linked_list *elem = poller->signals.next; elem != &poller->signals;
@@ -196,7 +197,6 @@ int event_source_signal_destroy(struct event_source_signal *event_source) {
 	}
 
 	poller->dirty = true;
-	bps->killed = true;
 	return 0;
 }
 
-- 
2.43.0


From 8a70f32897bedf26b542cbe0570f85a3f36241b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 09/19] fix: deliver seat events in the order they were
 received

Events were inserted at the head of the pending list but also executed from
its head, so a batch of several events was delivered backwards.
---
 libseat/backend/seatd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 90dd7f7..88cef9b 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -187,7 +187,7 @@ static int queue_event(struct backend_seatd *backend, int opcode) {
 	}
 
 	ev->opcode = opcode;
-	linked_list_insert(&backend->pending_events, &ev->link);
+	linked_list_insert(backend->pending_events.prev, &ev->link);
 	return 0;
 }
 
-- 
2.43.0


From 45cdbfc74283ec694ad6a1e5c07d8367104c32cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 10/19] fix: keep the errno sent by the server when checking
 for pending events

check_pending_events always ended with errno set to EAGAIN by
connection_get, so callers never saw the error of the failed request.
---
 libseat/backend/seatd.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 88cef9b..31e9627 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -481,14 +481,16 @@ static int send_ping(struct backend_seatd *backend) {
 }
 
 static void check_pending_events(struct backend_seatd *backend) {
+	// The result of the call we are a part of must not be disturbed.
+	int saved_errno = errno;
 	if (read_and_queue(backend, NULL) == -1) {
-		return;
+		goto out;
 	}
 	if (linked_list_empty(&backend->pending_events)) {
-		return;
+		goto out;
 	}
 	if (backend->awaiting_pong) {
-		return;
+		goto out;
 	}
 
 	// We have events pending execution, so a dispatch is required.
@@ -497,9 +499,12 @@ static void check_pending_events(struct backend_seatd *backend) {
 	// user will be woken up by its response.
 	if (send_ping(backend) == -1) {
 		log_errorf("Could not send ping request: %s", strerror(errno));
-		return;
+		goto out;
 	}
 	backend->awaiting_pong = true;
+
+out:
+	errno = saved_errno;
 }
 
 static int open_device(struct libseat *base, const char *path, int *fd) {
-- 
2.43.0


From cbfa3ea151867f216c35e2a6f6ea4bcbe45fcce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 11/19] fix: close the socket only once when opening a seat
 fails

destroy already closes the connection, so the second close could hit an
unrelated descriptor of the process. Also keep the errno of the failure.
---
 libseat/backend/seatd.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 31e9627..b874ce5 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -367,6 +367,7 @@ error:
 static struct libseat *_open_seat(const struct libseat_seat_listener *listener, void *data, int fd) {
 	assert(listener != NULL);
 	assert(listener->enable_seat != NULL && listener->disable_seat != NULL);
+	int saved_errno;
 	struct backend_seatd *backend = calloc(1, sizeof(struct backend_seatd));
 	if (backend == NULL) {
 		log_errorf("Allocation failed: %s", strerror(errno));
@@ -423,9 +424,16 @@ static struct libseat *_open_seat(const struct libseat_seat_listener *listener,
 	return &backend->base;
 
 backend_error:
+	// This closes the connection, if it was not closed already
+	saved_errno = errno;
 	destroy(backend);
+	errno = saved_errno;
+	return NULL;
+
 alloc_error:
+	saved_errno = errno;
 	close(fd);
+	errno = saved_errno;
 	return NULL;
 }
 
-- 
2.43.0


From f157cfe3f40d6a012413ffb6ca58567ea6225ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 12/19] fix: report end of file also while bytes are pending

connection_read returned the number of buffered bytes on end of file, so a
peer that went away in the middle of a message was never noticed.
---
 common/connection.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/connection.c b/common/connection.c
index ab79e0e..a46ebe6 100644
--- a/common/connection.c
+++ b/common/connection.c
@@ -207,6 +207,10 @@ int connection_read(struct connection *connection) {
 	if (decode_cmsg(&connection->fds_in, &msg) != 0) {
 		return -1;
 	}
+	if (len == 0) {
+		// End of file, even if there still are bytes pending
+		return 0;
+	}
 	connection->in.head += len;
 
 	return connection_buffer_size(&connection->in);
-- 
2.43.0


From b07466be4c5113bf7d8ad7fedb46e68377508521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 13/19] fix: notice a lost connection in a non-blocking
 dispatch

End of file was reported as a successful dispatch of no events, and fatal
read errors did not put the backend into its error state.
---
 libseat/backend/seatd.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index b874ce5..fe44e4a 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -340,6 +340,15 @@ static int dispatch(struct libseat *base, int timeout) {
 	int read = 0;
 	if (predispatch > 0 || timeout == 0) {
 		read = connection_read(&backend->connection);
+		if (read == 0) {
+			set_error(backend);
+			errno = EIO;
+			read = -1;
+		} else if (read == -1 && errno != EAGAIN) {
+			int saved_errno = errno;
+			set_error(backend);
+			errno = saved_errno;
+		}
 	} else {
 		read = poll_connection(backend, timeout);
 	}
-- 
2.43.0


From c08988c0cd9703b9e71d6072a034813821b24c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 14/19] fix: read D-Bus booleans into an int

sd-bus stores a value of type 'b' as an int, so reading it into a bool wrote
three bytes past the variable.
---
 libseat/backend/logind.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libseat/backend/logind.c b/libseat/backend/logind.c
index b5eeed2..f149d1a 100644
--- a/libseat/backend/logind.c
+++ b/libseat/backend/logind.c
@@ -280,11 +280,14 @@ static const char *seat_name(struct libseat *base) {
 
 static int session_get_active(struct backend_logind *session, bool *active) {
 	sd_bus_error error = SD_BUS_ERROR_NULL;
+	int value = 0; // D-Bus booleans are read as int
 	int ret = sd_bus_get_property_trivial(session->bus, "org.freedesktop.login1", session->path,
 					      "org.freedesktop.login1.Session", "Active", &error,
-					      'b', active);
+					      'b', &value);
 	if (ret < 0) {
 		log_errorf("Could not check if session is active: %s", error.message);
+	} else {
+		*active = value != 0;
 	}
 
 	sd_bus_error_free(&error);
@@ -434,7 +437,7 @@ static int handle_properties_changed(sd_bus_message *msg, void *userdata, sd_bus
 				goto error;
 			}
 
-			bool value;
+			int value = 0; // D-Bus booleans are read as int
 			ret = sd_bus_message_read_basic(msg, 'b', &value);
 			if (ret < 0) {
 				goto error;
@@ -479,7 +482,7 @@ static int handle_properties_changed(sd_bus_message *msg, void *userdata, sd_bus
 			sd_bus_error error = SD_BUS_ERROR_NULL;
 			const char *obj = "org.freedesktop.login1.Session";
 			const char *field = "Active";
-			bool value;
+			int value = 0; // D-Bus booleans are read as int
 			ret = sd_bus_get_property_trivial(session->bus, "org.freedesktop.login1",
 							  session->path, obj, field, &error, 'b',
 							  &value);
-- 
2.43.0


From 0b2d72771ad128cc4f89e70eb502883495930ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:35 +0000
Subject: [PATCH 15/19] fix: wait for writability when an event cannot be sent
 at once

---
 seatd/client.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seatd/client.c b/seatd/client.c
index e0c0a2c..1641053 100644
--- a/seatd/client.c
+++ b/seatd/client.c
@@ -465,7 +465,7 @@ int client_send_disable_seat(struct client *client) {
 		.size = 0,
 	};
 	if (connection_put(&client->connection, &header, sizeof header) == -1 ||
-	    connection_flush(&client->connection) == -1) {
+	    client_flush(client) == -1) {
 		log_errorf("Could not send event: %s", strerror(errno));
 		return -1;
 	}
@@ -478,7 +478,7 @@ int client_send_enable_seat(struct client *client) {
 		.size = 0,
 	};
 	if (connection_put(&client->connection, &header, sizeof header) == -1 ||
-	    connection_flush(&client->connection) == -1) {
+	    client_flush(client) == -1) {
 		log_errorf("Could not send event: %s", strerror(errno));
 		return -1;
 	}
-- 
2.43.0


From fdd4bc0bc6845c7e29197d1111b88c683159f31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:37 +0000
Subject: [PATCH 16/19] fix: report the errno of a failed dup when opening a
 device

---
 seatd/client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seatd/client.c b/seatd/client.c
index 1641053..373c8ff 100644
--- a/seatd/client.c
+++ b/seatd/client.c
@@ -232,8 +232,10 @@ static int handle_open_device(struct client *client, char *path) {
 
 	int dupfd = dup(device->fd);
 	if (dupfd == -1) {
+		int dup_errno = errno;
 		log_errorf("Could not dup fd: %s", strerror(errno));
 		seat_close_device(client, device);
+		errno = dup_errno;
 		goto fail;
 	}
 
-- 
2.43.0


From a2ddfed8072d3b1dbd7bb9b144e2f5affa84460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:29 +0000
Subject: [PATCH 17/19] fix: libseat: leave a broken connection alone after a
 call

After a failed call, check_pending_events could read from or send a ping
on a connection that set_error had already closed.
---
 libseat/backend/seatd.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index fe44e4a..497b932 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -500,6 +500,10 @@ static int send_ping(struct backend_seatd *backend) {
 static void check_pending_events(struct backend_seatd *backend) {
 	// The result of the call we are a part of must not be disturbed.
 	int saved_errno = errno;
+	if (backend->error) {
+		// Nothing may be read from or sent on a broken connection
+		goto out;
+	}
 	if (read_and_queue(backend, NULL) == -1) {
 		goto out;
 	}
-- 
2.43.0


From 46994be7f771b76bb6a5725100e7ebd9502845d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:29 +0000
Subject: [PATCH 18/19] fix: libseat: a failed wait for a response breaks the
 connection

If poll fails while the response is still on its way, it would be taken
for the response of the next request. EAGAIN only means to wait again.
---
 libseat/backend/seatd.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index 497b932..aff50c4 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -307,8 +307,12 @@ static int read_until_response(struct backend_seatd *backend) {
 		if (opcode != 0) {
 			break;
 		}
-		if (poll_connection(backend, -1) == -1) {
+		if (poll_connection(backend, -1) == -1 && errno != EAGAIN) {
+			int saved_errno = errno;
 			log_errorf("Could not poll connection: %s", strerror(errno));
+			// The answer would be mistaken for that of the next request
+			set_error(backend);
+			errno = saved_errno;
 			return -1;
 		}
 	}
-- 
2.43.0


From fd1d91711ff901a0607a633f167a16630feb5c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:29 +0000
Subject: [PATCH 19/19] fix: libseat: background messages have no payload

A payload of an event or pong would be read as the next message header.
---
 libseat/backend/seatd.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libseat/backend/seatd.c b/libseat/backend/seatd.c
index aff50c4..29497d6 100644
--- a/libseat/backend/seatd.c
+++ b/libseat/backend/seatd.c
@@ -227,6 +227,14 @@ static int read_and_queue(struct backend_seatd *backend, int *opcode) {
 	struct proto_header header;
 	while (connection_get(&backend->connection, &header, sizeof header) != -1) {
 		packets++;
+		if (header.size != 0 &&
+		    (header.opcode == SERVER_PONG || header.opcode == SERVER_DISABLE_SEAT ||
+		     header.opcode == SERVER_ENABLE_SEAT)) {
+			log_errorf("Invalid message: opcode %d does not have a payload", header.opcode);
+			set_error(backend);
+			errno = EBADMSG;
+			return -1;
+		}
 		switch (header.opcode) {
 		case SERVER_PONG:
 			// We care about whether or not the answer has been
-- 
2.43.0

