From ec29abdba8b2c03aca4d8410716abc134ab2ceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 01/24] fix: resume at the right iovec after a short sendmsg

The unix and tcp writers went through the iovec array without ever
advancing msg_iov, so after a short write already sent data was sent
again, and the array was read past its end.
---
 fstrm/tcp_writer.c  | 13 ++++++++-----
 fstrm/unix_writer.c | 13 ++++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/fstrm/tcp_writer.c b/fstrm/tcp_writer.c
index 4a9bc86..16bd900 100644
--- a/fstrm/tcp_writer.c
+++ b/fstrm/tcp_writer.c
@@ -191,15 +191,18 @@ fstrm__tcp_writer_op_write(void *obj, const struct iovec *iov, int iovcnt)
 		if (cur == 0 && written == (ssize_t) nbytes)
 			return fstrm_res_success;
 
-		while (written >= (ssize_t) msg.msg_iov[cur].iov_len)
-		       written -= msg.msg_iov[cur++].iov_len;
+		while (cur < iovcnt && written >= (ssize_t) iov[cur].iov_len)
+		       written -= iov[cur++].iov_len;
 
 		if (cur == iovcnt)
 			return fstrm_res_success;
 
-		msg.msg_iov[cur].iov_base = (void *)
-			((char *) msg.msg_iov[cur].iov_base + written);
-		msg.msg_iov[cur].iov_len -= written;
+		/* Resume with the first iovec that was not completely sent. */
+		msg.msg_iov = (struct iovec *) &iov[cur];
+		msg.msg_iovlen = iovcnt - cur;
+		msg.msg_iov->iov_base = (void *)
+			((char *) msg.msg_iov->iov_base + written);
+		msg.msg_iov->iov_len -= written;
 	}
 }
 
diff --git a/fstrm/unix_writer.c b/fstrm/unix_writer.c
index 72c9167..4985174 100644
--- a/fstrm/unix_writer.c
+++ b/fstrm/unix_writer.c
@@ -177,15 +177,18 @@ fstrm__unix_writer_op_write(void *obj, const struct iovec *iov, int iovcnt)
 		if (cur == 0 && written == (ssize_t) nbytes)
 			return fstrm_res_success;
 
-		while (written >= (ssize_t) msg.msg_iov[cur].iov_len)
-		       written -= msg.msg_iov[cur++].iov_len;
+		while (cur < iovcnt && written >= (ssize_t) iov[cur].iov_len)
+		       written -= iov[cur++].iov_len;
 
 		if (cur == iovcnt)
 			return fstrm_res_success;
 
-		msg.msg_iov[cur].iov_base = (void *)
-			((char *) msg.msg_iov[cur].iov_base + written);
-		msg.msg_iov[cur].iov_len -= written;
+		/* Resume with the first iovec that was not completely sent. */
+		msg.msg_iov = (struct iovec *) &iov[cur];
+		msg.msg_iovlen = iovcnt - cur;
+		msg.msg_iov->iov_base = (void *)
+			((char *) msg.msg_iov->iov_base + written);
+		msg.msg_iov->iov_len -= written;
 	}
 }
 
-- 
2.43.0


From bb3a60300c4fecd155eec1acf7edbe7efc1e7ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 02/24] fix: accept a match on other than the writer's first
 content type

In the bidirectional handshake a mismatch of an earlier content type was
never undone by the match of a later one.
---
 fstrm/writer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fstrm/writer.c b/fstrm/writer.c
index a623ba1..fb42cf6 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -190,6 +190,7 @@ fstrm__writer_open_bidirectional(struct fstrm_writer *w)
 		res = fstrm_control_match_field_content_type(w->control_accept,
 			ctype.data, ctype.len);
 		if (res == fstrm_res_success) {
+			match = true;
 			match_ctype = ctype.data;
 			len_match_ctype = ctype.len;
 			break;
-- 
2.43.0


From 41f3d1e74fd781cb83fc74be19437970f59fe1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 03/24] fix: close the transport when the handshake of an open
 fails

fstrm_writer_open() and fstrm_reader_open() left the rdwr object open,
so the descriptor leaked and the next attempt opened it a second time.
---
 fstrm/reader.c | 8 ++++++--
 fstrm/writer.c | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index 240ac0a..f3f1665 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -265,13 +265,17 @@ fstrm_reader_open(struct fstrm_reader *r)
 	if (r->rdwr->ops.write != NULL) {
 		/* Bi-directional transport. */
 		res = fstrm__reader_open_bidirectional(r);
-		if (res != fstrm_res_success)
+		if (res != fstrm_res_success) {
+			(void)fstrm_rdwr_close(r->rdwr);
 			return res;
+		}
 	} else {
 		/* Uni-directional transport. */
 		res = fstrm__reader_open_unidirectional(r);
-		if (res != fstrm_res_success)
+		if (res != fstrm_res_success) {
+			(void)fstrm_rdwr_close(r->rdwr);
 			return res;
+		}
 	}
 
 	r->state = fstrm_reader_state_opened;
diff --git a/fstrm/writer.c b/fstrm/writer.c
index fb42cf6..542dd20 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -276,13 +276,17 @@ fstrm_writer_open(struct fstrm_writer *w)
 	if (w->rdwr->ops.read != NULL) {
 		/* Bi-directional transport. */
 		res = fstrm__writer_open_bidirectional(w);
-		if (res != fstrm_res_success)
+		if (res != fstrm_res_success) {
+			(void)fstrm_rdwr_close(w->rdwr);
 			return res;
+		}
 	} else {
 		/* Uni-directional transport. */
 		res = fstrm__writer_open_unidirectional(w);
-		if (res != fstrm_res_success)
+		if (res != fstrm_res_success) {
+			(void)fstrm_rdwr_close(w->rdwr);
 			return res;
+		}
 	}
 
 	w->state = fstrm_writer_state_opened;
-- 
2.43.0


From a7ff80bb9b11044451090696fa3ca25ac7f79d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 04/24] fix: enforce the documented power of 2 for
 input_queue_size

Other even sizes were accepted and then crashed fstrm_iothr_init(), as
the queues cannot be created with them.
---
 fstrm/iothr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index 9cf2bf1..96a5fff 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -162,7 +162,7 @@ fstrm_iothr_options_set_input_queue_size(struct fstrm_iothr_options *opt,
 {
 	if (input_queue_size < FSTRM_IOTHR_INPUT_QUEUE_SIZE_MIN ||
 	    input_queue_size > FSTRM_IOTHR_INPUT_QUEUE_SIZE_MAX ||
-	    input_queue_size & 1)
+	    (input_queue_size & (input_queue_size - 1)) != 0)
 	{
 		return fstrm_res_failure;
 	}
-- 
2.43.0


From a8a5e5248d0e56d5165892f17bfa9f3d026b57b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 05/24] fix: make the first open attempt right away, also early
 after boot

With a monotonic clock still below reopen_interval the first attempt was
put off, and frames submitted in the meantime were discarded.
---
 fstrm/iothr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index 96a5fff..adc7bac 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -244,6 +244,9 @@ fstrm_iothr_init(const struct fstrm_iothr_options *opt,
 		opt = &default_fstrm_iothr_options;
 	memmove(&iothr->opt, opt, sizeof(iothr->opt));
 
+	/* The first attempt to open the transport is due immediately. */
+	iothr->last_open_attempt = -(time_t) iothr->opt.reopen_interval;
+
 	/*
 	 * Some platforms have a ridiculously low IOV_MAX, literally the lowest
 	 * value even allowed by POSIX, which is lower than our conservative
-- 
2.43.0


From 6114d6248c4e3b32f15556a50067df0d76cc7b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 06/24] fix: do not postpone the flush on every signal from a
 producer

Each wake-up of the I/O thread restarted the flush timeout, so frames in
the output queue stayed there for as long as producers kept signalling.
---
 fstrm/iothr.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index adc7bac..a07a33b 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -600,6 +600,8 @@ static void *
 fstrm__iothr_thr(void *arg)
 {
 	struct fstrm_iothr *iothr = (struct fstrm_iothr *)arg;
+	struct timespec ts;
+	bool ts_valid = false;
 
 	fstrm__iothr_thr_setup();
 	fstrm__iothr_maybe_open(iothr);
@@ -621,25 +623,33 @@ fstrm__iothr_thr(void *arg)
 		if (count != 0)
 			continue;
 
-		struct timespec ts;
+		/*
+		 * Wait for more entries until the flush timeout expires. Being
+		 * signalled must not postpone the flush.
+		 */
+		if (!ts_valid) {
 #if HAVE_CLOCK_GETTIME
 #if HAVE_PTHREAD_CONDATTR_SETCLOCK
-		int rv = clock_gettime(iothr->clkid_pthread, &ts);
+			int rv = clock_gettime(iothr->clkid_pthread, &ts);
 #else
-		int rv = clock_gettime(CLOCK_REALTIME, &ts);
+			int rv = clock_gettime(CLOCK_REALTIME, &ts);
 #endif
-		assert(rv == 0);
+			assert(rv == 0);
 #else
-		my_gettime(-1, &ts);
+			my_gettime(-1, &ts);
 #endif
-		ts.tv_sec += iothr->opt.flush_timeout;
+			ts.tv_sec += iothr->opt.flush_timeout;
+			ts_valid = true;
+		}
 
 		pthread_mutex_lock(&iothr->cv_lock);
 		res = pthread_cond_timedwait(&iothr->cv, &iothr->cv_lock, &ts);
 		pthread_mutex_unlock(&iothr->cv_lock);
 
-		if (res == ETIMEDOUT)
+		if (res == ETIMEDOUT) {
 			fstrm__iothr_flush_output(iothr);
+			ts_valid = false;
+		}
 	}
 
 	return NULL;
-- 
2.43.0


From 01eeb00ff5c61be4c56d9c41814443aa91a7e8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 07/24] fix: reject data frames that have no representation in
 the stream

---
 fstrm/writer.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fstrm/writer.c b/fstrm/writer.c
index 542dd20..0f3302c 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -401,6 +401,15 @@ fstrm_writer_writev(struct fstrm_writer *w, const struct iovec *iov, int iovcnt)
 	if (unlikely(iovcnt < 1))
 		return fstrm_res_success;
 
+	/*
+	 * A zero length would be taken for the escape sequence that introduces
+	 * a control frame, and the length field only has 32 bits.
+	 */
+	for (int i = 0; i < iovcnt; i++) {
+		if (unlikely(iov[i].iov_len < 1 || iov[i].iov_len >= UINT32_MAX))
+			return fstrm_res_invalid;
+	}
+
 	res = fstrm__writer_maybe_open(w);
 	if (res != fstrm_res_success)
 		return res;
-- 
2.43.0


From eb250ca8584444d1d9bbdaaa18723dcca65039f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 08/24] fix: do not report success for a control frame that was
 never exchanged

---
 fstrm/reader.c | 3 +++
 fstrm/writer.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index f3f1665..d8ec17f 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -447,5 +447,8 @@ fstrm_reader_get_control(struct fstrm_reader *r,
 		return fstrm_res_failure;
 	}
 
+	if (*control == NULL)
+		return fstrm_res_failure;
+
 	return fstrm_res_success;
 }
diff --git a/fstrm/writer.c b/fstrm/writer.c
index 0f3302c..ce9924e 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -456,5 +456,8 @@ fstrm_writer_get_control(struct fstrm_writer *w,
 		return fstrm_res_failure;
 	}
 
+	if (*control == NULL)
+		return fstrm_res_failure;
+
 	return fstrm_res_success;
 }
-- 
2.43.0


From d764eaf2dec6d111a0e964e49fe6f04352fc0832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 09/24] fix: report failure for a frame over max_frame_size

---
 fstrm/reader.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index d8ec17f..0d8ec39 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -313,8 +313,10 @@ fstrm__reader_next_data(struct fstrm_reader *r,
 			/* This is a data frame. */
 
 			/* Enforce maximum frame size. */
-			if (unlikely(len > r->max_frame_size))
+			if (unlikely(len > r->max_frame_size)) {
+				res = fstrm_res_failure;
 				goto fail;
+			}
 
 			/* Read the data frame. */
 			ubuf_clip(r->buf, 0);
-- 
2.43.0


From 6573ad87632cdeb22912325862492dc5c33dd64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 10/24] fix: close the transport when reading fails

---
 fstrm/reader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index 0d8ec39..9845d7e 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -355,6 +355,7 @@ fstrm__reader_next_data(struct fstrm_reader *r,
 		}
 	}
 fail:
+	(void)fstrm_rdwr_close(r->rdwr);
 	r->state = fstrm_reader_state_failed;
 	return res;
 }
-- 
2.43.0


From 1fd5efb74e260f75be78b1cd0738e81c73c6d42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 11/24] fix: do not reopen a reader that was not closed after
 STOP

---
 fstrm/reader.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index 9845d7e..d1b14cd 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -255,8 +255,11 @@ fstrm_reader_open(struct fstrm_reader *r)
 {
 	fstrm_res res;
 
-	if (r->state == fstrm_reader_state_opened)
+	if (r->state == fstrm_reader_state_opened ||
+	    r->state == fstrm_reader_state_closing)
+	{
 		return fstrm_res_failure;
+	}
 
 	res = fstrm_rdwr_open(r->rdwr);
 	if (res != fstrm_res_success)
-- 
2.43.0


From 9f0c9b3884e6013db143497b9198e45c4eba2411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 12/24] fix: do not leak or report the STOP frame of an earlier
 stream

---
 fstrm/reader.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index d1b14cd..4247bff 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -261,6 +261,9 @@ fstrm_reader_open(struct fstrm_reader *r)
 		return fstrm_res_failure;
 	}
 
+	/* Forget the STOP frame of an earlier stream. */
+	fstrm_control_destroy(&r->control_stop);
+
 	res = fstrm_rdwr_open(r->rdwr);
 	if (res != fstrm_res_success)
 		return res;
-- 
2.43.0


From a4ca1dd04f081201416ec1ab7401601eaf6f0a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:04 +0000
Subject: [PATCH 13/24] fix: do not accept any content type when none matches

---
 fstrm/reader.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index 4247bff..e128a90 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -212,6 +212,7 @@ static fstrm_res
 fstrm__reader_open_bidirectional(struct fstrm_reader *r)
 {
 	fstrm_res res;
+	bool matched = (fs_bufvec_size(r->content_types) == 0);
 
 	/* Read the READY frame. */
 	res = fstrm__rdwr_read_control(r->rdwr, &r->control_ready, FSTRM_CONTROL_READY);
@@ -238,9 +239,17 @@ fstrm__reader_open_bidirectional(struct fstrm_reader *r)
 				ctype.data, ctype.len);
 			if (res != fstrm_res_success)
 				return res;
+			matched = true;
 		}
 	}
 
+	/*
+	 * An ACCEPT frame without content types means "any", so it cannot be
+	 * the answer to a writer that offers none of the wanted content types.
+	 */
+	if (!matched)
+		return fstrm_res_failure;
+
 	/* Write the ACCEPT frame. */
 	res = fstrm__rdwr_write_control_frame(r->rdwr, r->control_accept);
 	if (res != fstrm_res_success)
-- 
2.43.0


From 289df41f89e75451efbbb07206e2b720475371f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:29 +0000
Subject: [PATCH 14/24] fix: do not let the length of a frame overflow in
 fstrm_capture

The length field of a frame plus the length of the field itself was
computed in 32 bits, so that a frame announced with a length of
0xfffffffc or more was taken for one of 0..3 bytes.
---
 src/fstrm_capture.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 1d8c0a8..918c6cd 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -30,6 +30,7 @@
 #include <assert.h>
 #include <errno.h>
 #include <fcntl.h>
+#include <inttypes.h>
 #include <signal.h>
 #include <stdbool.h>
 #include <stdint.h>
@@ -86,10 +87,10 @@ struct conn {
 	struct capture		*ctx;
 	conn_state		state;
 	uint32_t		len_frame_payload;
-	uint32_t		len_frame_total;
+	uint64_t		len_frame_total;
 	size_t			len_buf;
 	size_t			bytes_read;
-	size_t			bytes_skip;
+	uint64_t		bytes_skip;
 	size_t			count_read;
 	struct bufferevent	*bev;
 	struct evbuffer		*ev_input;
@@ -624,7 +625,7 @@ close_write_file(struct capture *ctx)
 static void
 process_data_frame(struct conn *conn)
 {
-	conn_log(CONN_TRACE, conn, "processing data frame (%u bytes)",
+	conn_log(CONN_TRACE, conn, "processing data frame (%" PRIu64 " bytes)",
 		 conn->len_frame_total);
 
 	/*
@@ -913,7 +914,7 @@ load_control_frame(struct conn *conn)
 		return false;
 	}
 	conn_log_data(CONN_TRACE, conn, control_frame, conn->len_frame_total,
-		      "reading control frame (%u bytes): ", conn->len_frame_total);
+		      "reading control frame (%" PRIu64 " bytes): ", conn->len_frame_total);
 
 	/* Decode the control frame. */
 	res = fstrm_control_decode(conn->control,
@@ -994,11 +995,11 @@ can_read_full_frame(struct conn *conn)
 	 * exactly 'len_frame_total'.
 	 */
 	if (conn->len_buf < conn->len_frame_total) {
-		conn_log(CONN_TRACE, conn, "incomplete message (have %zd bytes, want %u)",
+		conn_log(CONN_TRACE, conn, "incomplete message (have %zd bytes, want %" PRIu64 ")",
 			 conn->len_buf, conn->len_frame_total);
 		if (conn->len_frame_total > conn->ctx->capture_highwater) {
 			conn_log(CONN_WARNING, conn,
-				"Skipping %u byte message (%zd buffer)",
+				"Skipping %" PRIu64 " byte message (%zd buffer)",
 				conn->len_frame_total,
 				conn->ctx->capture_highwater);
 			conn->bytes_skip = conn->len_frame_total;
@@ -1043,10 +1044,10 @@ cb_read(struct bufferevent *bev, void *arg)
 
 		/* Skip bytes of oversized frames. */
 		if (conn->bytes_skip > 0) {
-			size_t skip = conn->bytes_skip;
+			size_t skip = conn->len_buf;
 
-			if (skip > conn->len_buf)
-				skip = conn->len_buf;
+			if (skip > conn->bytes_skip)
+				skip = conn->bytes_skip;
 
 			conn_log(CONN_TRACE, conn, "Skipping %zd bytes", skip);
 			evbuffer_drain(conn->ev_input, skip);
-- 
2.43.0


From 5ad575a0d2b7517f6ff2e778aa59bff55c3ca49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:46 +0000
Subject: [PATCH 15/24] fix: refuse data frames outside of START and STOP in
 fstrm_capture

Data sent before the handshake was complete, or after STOP, was recorded
in the output.
---
 src/fstrm_capture.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 918c6cd..6fe7572 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -951,6 +951,15 @@ can_read_full_frame(struct conn *conn)
 	evbuffer_copyout(conn->ev_input, &tmp[0], sizeof(uint32_t));
 	conn->len_frame_payload = ntohl(tmp[0]);
 
+	/* Data frames are only valid between START and STOP. */
+	if (conn->len_frame_payload > 0 &&
+	    conn->state != CONN_STATE_READING_DATA)
+	{
+		conn_log(CONN_WARNING, conn, "unexpected data frame");
+		cb_close_conn(conn->bev, 0, conn);
+		return false;
+	}
+
 	/* Account for the frame length field. */
 	conn->len_frame_total += sizeof(uint32_t);
 
-- 
2.43.0


From 88fd771fa3d3b9ac9538454076e6dacfe8fee87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:46 +0000
Subject: [PATCH 16/24] fix: do not stall on an oversized frame in
 fstrm_capture

The bytes of an oversized frame which are already in the buffer were only
drained when more of them arrived. With the buffer filled up nothing more
is ever read, and with the whole frame shorter than that the frames after
it were delayed until the client sent more.
---
 src/fstrm_capture.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 6fe7572..0062f8d 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -1011,12 +1011,21 @@ can_read_full_frame(struct conn *conn)
 				"Skipping %" PRIu64 " byte message (%zd buffer)",
 				conn->len_frame_total,
 				conn->ctx->capture_highwater);
+			if (conn->len_frame_payload == 0) {
+				/*
+				 * A control frame cannot be skipped, and this
+				 * one never fits into the buffer.
+				 */
+				cb_close_conn(conn->bev, 0, conn);
+				return false;
+			}
 			conn->bytes_skip = conn->len_frame_total;
+			return true;
 		}
 		return false;
 	}
 
-	/* Success. The entire frame can now be read from the buffer. */
+	/* Success. The entire frame can now be read from the buffer or skipped. */
 	return true;
 }
 
-- 
2.43.0


From 917aeaa46e79f37f5adf790a23532562c2ef75af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:46 +0000
Subject: [PATCH 17/24] fix: accept control frames up to the maximum size in
 fstrm_capture

The limit applies to the control frame, not to the frame together with the
escape sequence and length field in front of it.
---
 src/fstrm_capture.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 0062f8d..b7d1d11 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -902,7 +902,9 @@ load_control_frame(struct conn *conn)
 	uint8_t *control_frame = NULL;
 
 	/* Check if the frame is too big. */
-	if (conn->len_frame_total >= FSTRM_CONTROL_FRAME_LENGTH_MAX) {
+	if (conn->len_frame_total >
+	    2*sizeof(uint32_t) + FSTRM_CONTROL_FRAME_LENGTH_MAX)
+	{
 		/* Malformed. */
 		return false;
 	}
-- 
2.43.0


From 0de9b377090cebe5b25ed2ed43c0b8a064104737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:10 +0000
Subject: [PATCH 18/24] fix: do not ignore write errors on flush and close in
 fstrm_capture

Output data is buffered, so that a full disk usually shows up when the
buffer is flushed on SIGHUP or when the file is closed. These errors were
ignored: data was missing from the output, in the case of SIGHUP even in
the middle, and the exit status was 0.
---
 src/fstrm_capture.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index b7d1d11..7b5722b 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -494,7 +494,8 @@ open_write_start(struct capture *ctx)
 	n_written = fwrite(control_frame, len_control_frame, 1, ctx->output_file);
 	if (n_written != 1)
 		goto fail;
-	(void) fflush(ctx->output_file);
+	if (fflush(ctx->output_file) != 0)
+		goto fail;
 
 	/* Success. */
 	ctx->bytes_written += len_control_frame;
@@ -610,8 +611,13 @@ close_write_file(struct capture *ctx)
 			return false;
 
 		/* Close the FILE object. */
-		fclose(ctx->output_file);
+		int ret = fclose(ctx->output_file);
 		ctx->output_file = NULL;
+		if (ret != 0) {
+			fprintf(stderr, "%s: failed to close output file: %s\n",
+				argv_program, strerror(errno));
+			return false;
+		}
 	}
 
 	/* Success. */
@@ -1159,8 +1165,13 @@ do_sighup(__attribute__((unused)) evutil_socket_t sig,
 {
 	struct capture *ctx = user_data;
 	if (ctx->output_file) {
-		fflush(ctx->output_file);
 		fprintf(stderr, "%s: received SIGHUP, flushing output\n", argv_program);
+		if (fflush(ctx->output_file) != 0) {
+			/* Buffered data is lost, so fail hard. */
+			fprintf(stderr, "%s: fflush() failed: %s\n",
+				argv_program, strerror(errno));
+			exit(EXIT_FAILURE);
+		}
 	}
 }
 
-- 
2.43.0


From d3faf202bfe44b157dbd8ac2a260eb7a18db456f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:10 +0000
Subject: [PATCH 19/24] fix: do not lose SIGTERM and SIGINT in fstrm_capture

event_base_loopexit() was called from a signal handler, where it must not
be called, and without effect when the signal arrived just before the event
loop went to sleep: an idle fstrm_capture then did not end until the next
event. Let the event loop handle these signals like the others.
---
 src/fstrm_capture.c | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 7b5722b..88395ca 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -108,6 +108,8 @@ struct capture {
 	struct evconnlistener	*ev_connlistener;
 	struct event		*ev_sighup;
 	struct event		*ev_sigusr1;
+	struct event		*ev_sigterm;
+	struct event		*ev_sigint;
 
 	FILE			*output_file;
 	char			*output_fname;
@@ -1175,6 +1177,14 @@ do_sighup(__attribute__((unused)) evutil_socket_t sig,
 	}
 }
 
+static void
+do_shutdown(__attribute__((unused)) evutil_socket_t sig,
+	    __attribute__((unused)) short events, void *user_data)
+{
+	struct capture *ctx = user_data;
+	event_base_loopexit(ctx->ev_base, NULL);
+}
+
 static bool
 setup_event_loop(struct capture *ctx)
 {
@@ -1209,31 +1219,27 @@ setup_event_loop(struct capture *ctx)
 				       &g_program_ctx);
 	evsignal_add(ctx->ev_sigusr1, NULL);
 
+	/* Register our shutdown handlers. */
+	ctx->ev_sigterm = evsignal_new(ctx->ev_base, SIGTERM, &do_shutdown,
+				       &g_program_ctx);
+	evsignal_add(ctx->ev_sigterm, NULL);
+	ctx->ev_sigint = evsignal_new(ctx->ev_base, SIGINT, &do_shutdown,
+				      &g_program_ctx);
+	evsignal_add(ctx->ev_sigint, NULL);
+
 	/* Success. */
 	return true;
 }
 
-static void
-shutdown_handler(int signum __attribute__((unused)))
-{
-	event_base_loopexit(g_program_ctx.ev_base, NULL);
-}
-
 static bool
 setup_signals(void)
 {
 	struct sigaction sa = {
-		.sa_handler = shutdown_handler,
+		.sa_handler = SIG_IGN,
 	};
 
 	if (sigemptyset(&sa.sa_mask) != 0)
 		return false;
-	if (sigaction(SIGTERM, &sa, NULL) != 0)
-		return false;
-	if (sigaction(SIGINT, &sa, NULL) != 0)
-		return false;
-
-	sa.sa_handler = SIG_IGN;
 	if (sigaction(SIGPIPE, &sa, NULL) != 0)
 		return false;
 
@@ -1249,6 +1255,10 @@ cleanup(struct capture *ctx)
 		event_free(ctx->ev_sighup);
 	if (ctx->ev_sigusr1 != NULL)
 		event_free(ctx->ev_sigusr1);
+	if (ctx->ev_sigterm != NULL)
+		event_free(ctx->ev_sigterm);
+	if (ctx->ev_sigint != NULL)
+		event_free(ctx->ev_sigint);
 	if (ctx->ev_connlistener != NULL)
 		evconnlistener_free(ctx->ev_connlistener);
 	if (ctx->ev_base != NULL)
-- 
2.43.0


From 2cbc09a545f7e539cd896fb97098104a408622d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:16 +0000
Subject: [PATCH 20/24] fix: fstrm_replay: exit with failure when a file or the
 connection failed

A matching file that could not be read to its end, or a receiver that did
not confirm the end of the stream, was reported on stderr only.
---
 src/fstrm_replay.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/fstrm_replay.c b/src/fstrm_replay.c
index 0b717cd..a334b9b 100644
--- a/src/fstrm_replay.c
+++ b/src/fstrm_replay.c
@@ -199,9 +199,10 @@ init_writer(void)
 	return w;
 }
 
-static void
+static bool
 process_file(const char *fname, struct fstrm_writer *w)
 {
+	bool ok = true;
 	struct fstrm_reader *r = NULL;
 	struct fstrm_file_options *fopt = NULL;
 	const struct fstrm_control *control = NULL;
@@ -215,7 +216,7 @@ process_file(const char *fname, struct fstrm_writer *w)
 	fstrm_file_options_destroy(&fopt);
 	if (r == NULL) {
 		fprintf(stderr, "Warning: failed to open %s, skipping\n", fname);
-		return;
+		return true;
 	}
 
 	/* Check file content type. */
@@ -223,7 +224,7 @@ process_file(const char *fname, struct fstrm_writer *w)
 	if (res != fstrm_res_success) {
 		fprintf(stderr, "Warning: failed to read control frame from %s, skipping\n", fname);
 		fstrm_reader_destroy(&r);
-		return;
+		return true;
 	}
 
 	res = fstrm_control_match_field_content_type(control,
@@ -232,7 +233,7 @@ process_file(const char *fname, struct fstrm_writer *w)
 	if (res != fstrm_res_success) {
 		fprintf(stderr, "Warning: content type mismatch for %s, skipping\n", fname);
 		fstrm_reader_destroy(&r);
-		return;
+		return true;
 	}
 
 	/* Loop over file data. */
@@ -253,20 +254,24 @@ process_file(const char *fname, struct fstrm_writer *w)
 			res = fstrm_reader_get_control(r, FSTRM_CONTROL_STOP, &control);
 			if (res != fstrm_res_success) {
 				fprintf(stderr, "Error: unable to read STOP frame from %s.\n", fname);
+				ok = false;
 			}
 			break;
 		} else {
 			/* Abnormal end. */
 			fprintf(stderr, "Error: fstrm_reader_read() failed.\n");
+			ok = false;
 			break;
 		}
 	}
 	fstrm_reader_destroy(&r);
+	return ok;
 }
 
 int main(int argc, char **argv)
 {
 	int i;
+	int rv = EXIT_SUCCESS;
 	fstrm_res res;
 	struct fstrm_writer *w = NULL;
 
@@ -280,13 +285,16 @@ int main(int argc, char **argv)
 	for (i = 0; i < ARGV_ARRAY_COUNT(g_program_args.files); i++) {
 		const char *in_fname;
 		in_fname = ARGV_ARRAY_ENTRY(g_program_args.files, char *, i);
-		process_file(in_fname, w);
+		if (!process_file(in_fname, w))
+			rv = EXIT_FAILURE;
 	}
 
 	res = fstrm_writer_close(w);
-	if (res != fstrm_res_success)
-		fputs("Error: fstrm_writer_close() failed", stderr);
+	if (res != fstrm_res_success) {
+		fputs("Error: fstrm_writer_close() failed.\n", stderr);
+		rv = EXIT_FAILURE;
+	}
 
 	fstrm_writer_destroy(&w);
-	return 0;
+	return rv;
 }
-- 
2.43.0


From 7863b42cb83eed4eb78bbb9395fed760dda0eb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:16 +0000
Subject: [PATCH 21/24] fix: fstrm_dump: notice write errors on standard output

The frames that could not be printed were skipped and the exit status was 0.
---
 src/fstrm_dump.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fstrm_dump.c b/src/fstrm_dump.c
index cf7e38e..191001c 100644
--- a/src/fstrm_dump.c
+++ b/src/fstrm_dump.c
@@ -89,6 +89,8 @@ print_data_frame(const uint8_t *data, size_t len_data)
 	putchar(' ');
 	print_string(data, len_data, stdout);
 	putchar('\n');
+	if (ferror(stdout))
+		return fstrm_res_failure;
 	return fstrm_res_success;
 }
 
-- 
2.43.0


From 73baf6486bed5692478fdba1b396ebf9d844f3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:32 +0000
Subject: [PATCH 22/24] fix: do not crash when fstrm_iothr_init fails

---
 fstrm/iothr.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index a07a33b..150477f 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -334,7 +334,15 @@ fstrm_iothr_init(const struct fstrm_iothr_options *opt,
 
 	return iothr;
 fail:
-	fstrm_iothr_destroy(&iothr);
+	/* The I/O thread was not started, and the writer is still the caller's. */
+	if (iothr->queues != NULL) {
+		for (size_t i = 0; i < iothr->opt.num_input_queues; i++) {
+			if (iothr->queues[i].q != NULL)
+				iothr->queue_ops->destroy(&iothr->queues[i].q);
+		}
+		my_free(iothr->queues);
+	}
+	my_free(iothr);
 	return NULL;
 }
 
-- 
2.43.0


From 86710ef3b4431959bb982c7715914fcfb1c2113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:54 +0000
Subject: [PATCH 23/24] fix: do not let the count of collected bytes wrap

outq_nbytes was an unsigned int, but a frame may be of up to 4 GB - 1, so
that the length of a frame and its framing could make the count start over
and the batch went on collecting beyond buffer_hint.
---
 fstrm/iothr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index 150477f..a9d9643 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -111,7 +111,7 @@ struct fstrm_iothr {
 	unsigned			outq_idx;
 	struct iovec			*outq_iov;
 	struct fstrm__iothr_queue_entry	*outq_entries;
-	unsigned			outq_nbytes;
+	size_t				outq_nbytes;
 };
 
 struct fstrm_iothr_options *
-- 
2.43.0


From 80acca5bb2bd2837c165c3175f7811128d086b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:46 +0000
Subject: [PATCH 24/24] fix: do not use a standard stream again after it was
 closed

A writer or reader on the path "-" closes stdout or stdin. Opening it
again, as the I/O thread does after a write error, used the FILE that
had been closed.
---
 fstrm/file.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fstrm/file.c b/fstrm/file.c
index 4b3f781..a2e8235 100644
--- a/fstrm/file.c
+++ b/fstrm/file.c
@@ -32,6 +32,7 @@ struct fstrm__file {
 	FILE	*fp;
 	char	*file_path;
 	char	file_mode[2];
+	bool	std_closed;
 };
 
 struct fstrm_file_options *
@@ -63,9 +64,12 @@ fstrm__file_op_open(void *obj)
 {
 	struct fstrm__file *f = obj;
 	if (f->fp == NULL && f->file_path != NULL) {
-		if (!strcmp(f->file_path, "-"))
+		if (!strcmp(f->file_path, "-")) {
+			/* A standard stream is gone once it has been closed. */
+			if (f->std_closed)
+				return fstrm_res_failure;
 			f->fp = f->file_mode[0] == 'r' ? stdin : stdout;
-		else
+		} else
 			f->fp = fopen(f->file_path, f->file_mode);
 		if (f->fp == NULL)
 			return fstrm_res_failure;
@@ -81,6 +85,7 @@ fstrm__file_op_close(void *obj)
 	if (f->fp != NULL) {
 		FILE *fp = f->fp;
 		f->fp = NULL;
+		f->std_closed = (fp == stdin || fp == stdout);
 		if (fclose(fp) != 0)
 			return fstrm_res_failure;
 		return fstrm_res_success;
-- 
2.43.0

