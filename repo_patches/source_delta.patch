From e833a163beccc08de445386002e88f7f3906674f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 01/21] fix: fstrm_reader_read() must fail on an oversized data
 frame

The result of the preceding successful read was returned instead, with the
output parameters left unset.
---
 fstrm/reader.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index 240ac0a..ae18d27 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -309,8 +309,10 @@ fstrm__reader_next_data(struct fstrm_reader *r,
 			/* This is a data frame. */
 
 			/* Enforce maximum frame size. */
-			if (unlikely(len > r->max_frame_size))
+			if (unlikely(len > r->max_frame_size)) {
+				res = fstrm_res_failure;
 				goto fail;
+			}
 
 			/* Read the data frame. */
 			ubuf_clip(r->buf, 0);
-- 
2.43.0


From 0a65105cf4948ad5d30385c49d731766cd5d451c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 02/21] fix: writer negotiation must accept a match after an
 earlier mismatch

---
 fstrm/writer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fstrm/writer.c b/fstrm/writer.c
index a623ba1..fb42cf6 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -190,6 +190,7 @@ fstrm__writer_open_bidirectional(struct fstrm_writer *w)
 		res = fstrm_control_match_field_content_type(w->control_accept,
 			ctype.data, ctype.len);
 		if (res == fstrm_res_success) {
+			match = true;
 			match_ctype = ctype.data;
 			len_match_ctype = ctype.len;
 			break;
-- 
2.43.0


From 7e95ca0b62c80865786b11a23586a1bee36e2a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 03/21] fix: socket writers must not resend data after a
 partial sendmsg()

Also stop at the end of the iovec array when skipping completed elements.
---
 fstrm/tcp_writer.c  | 9 ++++++++-
 fstrm/unix_writer.c | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/fstrm/tcp_writer.c b/fstrm/tcp_writer.c
index 4a9bc86..2848b1f 100644
--- a/fstrm/tcp_writer.c
+++ b/fstrm/tcp_writer.c
@@ -191,7 +191,8 @@ fstrm__tcp_writer_op_write(void *obj, const struct iovec *iov, int iovcnt)
 		if (cur == 0 && written == (ssize_t) nbytes)
 			return fstrm_res_success;
 
-		while (written >= (ssize_t) msg.msg_iov[cur].iov_len)
+		while (cur < iovcnt &&
+		       written >= (ssize_t) msg.msg_iov[cur].iov_len)
 		       written -= msg.msg_iov[cur++].iov_len;
 
 		if (cur == iovcnt)
@@ -200,6 +201,12 @@ fstrm__tcp_writer_op_write(void *obj, const struct iovec *iov, int iovcnt)
 		msg.msg_iov[cur].iov_base = (void *)
 			((char *) msg.msg_iov[cur].iov_base + written);
 		msg.msg_iov[cur].iov_len -= written;
+
+		/* Do not resend the part that was already written. */
+		msg.msg_iov += cur;
+		msg.msg_iovlen -= cur;
+		iovcnt -= cur;
+		cur = 0;
 	}
 }
 
diff --git a/fstrm/unix_writer.c b/fstrm/unix_writer.c
index 72c9167..2fe41ac 100644
--- a/fstrm/unix_writer.c
+++ b/fstrm/unix_writer.c
@@ -177,7 +177,8 @@ fstrm__unix_writer_op_write(void *obj, const struct iovec *iov, int iovcnt)
 		if (cur == 0 && written == (ssize_t) nbytes)
 			return fstrm_res_success;
 
-		while (written >= (ssize_t) msg.msg_iov[cur].iov_len)
+		while (cur < iovcnt &&
+		       written >= (ssize_t) msg.msg_iov[cur].iov_len)
 		       written -= msg.msg_iov[cur++].iov_len;
 
 		if (cur == iovcnt)
@@ -186,6 +187,12 @@ fstrm__unix_writer_op_write(void *obj, const struct iovec *iov, int iovcnt)
 		msg.msg_iov[cur].iov_base = (void *)
 			((char *) msg.msg_iov[cur].iov_base + written);
 		msg.msg_iov[cur].iov_len -= written;
+
+		/* Do not resend the part that was already written. */
+		msg.msg_iov += cur;
+		msg.msg_iovlen -= cur;
+		iovcnt -= cur;
+		cur = 0;
 	}
 }
 
-- 
2.43.0


From fb9fa3e303a63675012c9a5c0772b1056231d015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 04/21] fix: reject data frames whose length cannot be
 represented on the wire

An empty data frame was written as an escape sequence, and lengths beyond 32
bits were truncated. Also avoid overflow in the iovcnt comparison.
---
 fstrm/writer.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/fstrm/writer.c b/fstrm/writer.c
index fb42cf6..096717b 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -397,12 +397,21 @@ fstrm_writer_writev(struct fstrm_writer *w, const struct iovec *iov, int iovcnt)
 	if (unlikely(iovcnt < 1))
 		return fstrm_res_success;
 
+	/*
+	 * A data frame cannot be empty, since a zero frame length is the escape
+	 * sequence, and the frame length must fit in 32 bits.
+	 */
+	for (int i = 0; i < iovcnt; i++) {
+		if (unlikely(iov[i].iov_len < 1 || iov[i].iov_len > UINT32_MAX))
+			return fstrm_res_failure;
+	}
+
 	res = fstrm__writer_maybe_open(w);
 	if (res != fstrm_res_success)
 		return res;
 
 	if (likely(w->state == fstrm_writer_state_opened)) {
-		if (likely((2 * iovcnt) <= FSTRM__WRITER_IOVEC_SIZE))
+		if (likely(iovcnt <= FSTRM__WRITER_IOVEC_SIZE / 2))
 			return fstrm__writer_write_iov(w, iov, iovcnt);
 		else
 			return fstrm__writer_write_iov_stupid(w, iov, iovcnt);
-- 
2.43.0


From 309b050286338d4235163c0ee78f331c92574c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 05/21] fix: fstrm_iothr_options_set_input_queue_size() must
 require a power of two

Other even sizes were accepted, and fstrm_iothr_init() then failed.
---
 fstrm/iothr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index 9cf2bf1..3704209 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -162,7 +162,7 @@ fstrm_iothr_options_set_input_queue_size(struct fstrm_iothr_options *opt,
 {
 	if (input_queue_size < FSTRM_IOTHR_INPUT_QUEUE_SIZE_MIN ||
 	    input_queue_size > FSTRM_IOTHR_INPUT_QUEUE_SIZE_MAX ||
-	    input_queue_size & 1)
+	    input_queue_size & (input_queue_size - 1))
 	{
 		return fstrm_res_failure;
 	}
-- 
2.43.0


From 80281e085a8bd8f46341f80665bb7c6e162a1992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 06/21] fix: close the transport when the opening handshake
 fails

Otherwise the connection leaks, and a later open attempt continues on a
connection that is in the middle of the failed handshake.
---
 fstrm/reader.c | 8 ++++++--
 fstrm/writer.c | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index ae18d27..84cd8dc 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -265,13 +265,17 @@ fstrm_reader_open(struct fstrm_reader *r)
 	if (r->rdwr->ops.write != NULL) {
 		/* Bi-directional transport. */
 		res = fstrm__reader_open_bidirectional(r);
-		if (res != fstrm_res_success)
+		if (res != fstrm_res_success) {
+			(void)fstrm_rdwr_close(r->rdwr);
 			return res;
+		}
 	} else {
 		/* Uni-directional transport. */
 		res = fstrm__reader_open_unidirectional(r);
-		if (res != fstrm_res_success)
+		if (res != fstrm_res_success) {
+			(void)fstrm_rdwr_close(r->rdwr);
 			return res;
+		}
 	}
 
 	r->state = fstrm_reader_state_opened;
diff --git a/fstrm/writer.c b/fstrm/writer.c
index 096717b..d39c01a 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -276,13 +276,17 @@ fstrm_writer_open(struct fstrm_writer *w)
 	if (w->rdwr->ops.read != NULL) {
 		/* Bi-directional transport. */
 		res = fstrm__writer_open_bidirectional(w);
-		if (res != fstrm_res_success)
+		if (res != fstrm_res_success) {
+			(void)fstrm_rdwr_close(w->rdwr);
 			return res;
+		}
 	} else {
 		/* Uni-directional transport. */
 		res = fstrm__writer_open_unidirectional(w);
-		if (res != fstrm_res_success)
+		if (res != fstrm_res_success) {
+			(void)fstrm_rdwr_close(w->rdwr);
 			return res;
+		}
 	}
 
 	w->state = fstrm_writer_state_opened;
-- 
2.43.0


From 5a2dc2f3e3acf8cb66cc1bedd69c052c4b469c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 07/21] fix: close a transport that is still open when it is
 destroyed

A reader that failed in the middle of a stream (for instance on an oversized
frame) never closed its transport.
---
 fstrm/rdwr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fstrm/rdwr.c b/fstrm/rdwr.c
index dc181ba..b099501 100644
--- a/fstrm/rdwr.c
+++ b/fstrm/rdwr.c
@@ -38,6 +38,7 @@ fstrm_rdwr_destroy(struct fstrm_rdwr **rdwr)
 {
 	fstrm_res res = fstrm_res_success;
 	if (*rdwr != NULL) {
+		(void)fstrm_rdwr_close(*rdwr);
 		if ((*rdwr)->ops.destroy != NULL)
 			res = (*rdwr)->ops.destroy((*rdwr)->obj);
 		my_free(*rdwr);
-- 
2.43.0


From 8766547c6918241798cbee6d2f95dd64ae515905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 08/21] fix: fstrm_control_add_field_content_type() must fail
 if the type is too long

As documented; previously only encoding the control frame failed.
---
 fstrm/control.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fstrm/control.c b/fstrm/control.c
index 297e7f3..a544ac5 100644
--- a/fstrm/control.c
+++ b/fstrm/control.c
@@ -167,6 +167,10 @@ fstrm_control_add_field_content_type(struct fstrm_control *c,
 				     size_t len_content_type)
 {
 	fs_buf ctype;
+
+	if (len_content_type > FSTRM_CONTROL_FIELD_CONTENT_TYPE_LENGTH_MAX)
+		return fstrm_res_failure;
+
 	ctype.len = len_content_type;
 	ctype.data = my_malloc(ctype.len);
 	memcpy(ctype.data, content_type, ctype.len);
-- 
2.43.0


From d53d302922ff341c362ccd15c6cacc2917ecb6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:23 +0000
Subject: [PATCH 09/21] fix: fstrm_iothr_init() must not join a thread that was
 never created

The failure path called fstrm_iothr_destroy(), which joins the I/O thread and
drains queues that may not exist yet.
---
 fstrm/iothr.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index 3704209..9a730d4 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -331,7 +331,18 @@ fstrm_iothr_init(const struct fstrm_iothr_options *opt,
 
 	return iothr;
 fail:
-	fstrm_iothr_destroy(&iothr);
+	/*
+	 * The I/O thread has not been started yet, so fstrm_iothr_destroy()
+	 * cannot be used here.
+	 */
+	if (iothr->queues != NULL) {
+		for (size_t i = 0; i < iothr->opt.num_input_queues; i++) {
+			if (iothr->queues[i].q != NULL)
+				iothr->queue_ops->destroy(&iothr->queues[i].q);
+		}
+		my_free(iothr->queues);
+	}
+	my_free(iothr);
 	return NULL;
 }
 
-- 
2.43.0


From 21cc1e4ee6323a06cb430cfe50fdc75513cec6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 10/21] fix: fstrm_capture: do not overflow the total frame
 length

A data frame length close to 2^32 made the total wrap around to a few bytes, so
the frame was not recognized as oversized and the stream was desynchronized.
---
 src/fstrm_capture.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 1d8c0a8..6802039 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -86,7 +86,7 @@ struct conn {
 	struct capture		*ctx;
 	conn_state		state;
 	uint32_t		len_frame_payload;
-	uint32_t		len_frame_total;
+	size_t			len_frame_total;
 	size_t			len_buf;
 	size_t			bytes_read;
 	size_t			bytes_skip;
@@ -624,7 +624,7 @@ close_write_file(struct capture *ctx)
 static void
 process_data_frame(struct conn *conn)
 {
-	conn_log(CONN_TRACE, conn, "processing data frame (%u bytes)",
+	conn_log(CONN_TRACE, conn, "processing data frame (%zu bytes)",
 		 conn->len_frame_total);
 
 	/*
@@ -913,7 +913,7 @@ load_control_frame(struct conn *conn)
 		return false;
 	}
 	conn_log_data(CONN_TRACE, conn, control_frame, conn->len_frame_total,
-		      "reading control frame (%u bytes): ", conn->len_frame_total);
+		      "reading control frame (%zu bytes): ", conn->len_frame_total);
 
 	/* Decode the control frame. */
 	res = fstrm_control_decode(conn->control,
@@ -994,11 +994,11 @@ can_read_full_frame(struct conn *conn)
 	 * exactly 'len_frame_total'.
 	 */
 	if (conn->len_buf < conn->len_frame_total) {
-		conn_log(CONN_TRACE, conn, "incomplete message (have %zd bytes, want %u)",
+		conn_log(CONN_TRACE, conn, "incomplete message (have %zd bytes, want %zu)",
 			 conn->len_buf, conn->len_frame_total);
 		if (conn->len_frame_total > conn->ctx->capture_highwater) {
 			conn_log(CONN_WARNING, conn,
-				"Skipping %u byte message (%zd buffer)",
+				"Skipping %zu byte message (%zd buffer)",
 				conn->len_frame_total,
 				conn->ctx->capture_highwater);
 			conn->bytes_skip = conn->len_frame_total;
-- 
2.43.0


From 48154471e4a850865498a758ab083bd8a24bc6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 11/21] fix: fstrm_capture: only capture data frames inside a
 negotiated stream

Data frames sent before START, or after STOP, were written to the output file.
---
 src/fstrm_capture.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 6802039..f7f2d5d 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -1057,6 +1057,11 @@ cb_read(struct bufferevent *bev, void *arg)
 		/* Process the frame. */
 		if (conn->len_frame_payload > 0) {
 			/* This is a data frame. */
+			if (conn->state != CONN_STATE_READING_DATA) {
+				/* Not in a data stream, shut down the connection. */
+				cb_close_conn(conn->bev, 0, conn);
+				return;
+			}
 			process_data_frame(conn);
 
 			/* Check if it's time to rotate the output file. */
-- 
2.43.0


From abd67ec4821b696841e7affbf1b68286af94dfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 12/21] fix: fstrm_capture: accept control frames up to the
 maximum length

The check compared the length including the frame header, so control frames of
504 to 512 bytes were refused.
---
 src/fstrm_capture.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index f7f2d5d..74e7810 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -901,7 +901,9 @@ load_control_frame(struct conn *conn)
 	uint8_t *control_frame = NULL;
 
 	/* Check if the frame is too big. */
-	if (conn->len_frame_total >= FSTRM_CONTROL_FRAME_LENGTH_MAX) {
+	if (conn->len_frame_total >
+	    2 * sizeof(uint32_t) + FSTRM_CONTROL_FRAME_LENGTH_MAX)
+	{
 		/* Malformed. */
 		return false;
 	}
-- 
2.43.0


From dcca3826492de99421325e3e50b7b018151604ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 13/21] fix: fstrm_capture: start skipping an oversized frame
 immediately

If the input buffer was already at its high-water mark, no further read callback
was delivered and the connection stalled.
---
 src/fstrm_capture.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 74e7810..b53d04b 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -1004,6 +1004,7 @@ can_read_full_frame(struct conn *conn)
 				conn->len_frame_total,
 				conn->ctx->capture_highwater);
 			conn->bytes_skip = conn->len_frame_total;
+			return true;
 		}
 		return false;
 	}
-- 
2.43.0


From 349315322e11b0b1fc8d0d8223b6d26bf4aa780a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:55 +0000
Subject: [PATCH 14/21] fix: fstrm_iothr must not delay the first attempt to
 open its writer

---
 fstrm/iothr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index 9a730d4..49e7608 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -244,6 +244,12 @@ fstrm_iothr_init(const struct fstrm_iothr_options *opt,
 		opt = &default_fstrm_iothr_options;
 	memmove(&iothr->opt, opt, sizeof(iothr->opt));
 
+	/*
+	 * The reopen interval only separates attempts: the very first attempt
+	 * must not wait for the (monotonic) clock to reach the interval.
+	 */
+	iothr->last_open_attempt = -(time_t) iothr->opt.reopen_interval;
+
 	/*
 	 * Some platforms have a ridiculously low IOV_MAX, literally the lowest
 	 * value even allowed by POSIX, which is lower than our conservative
-- 
2.43.0


From d20faddf98b287223367a252cbdb5c59b7c4015e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:32 +0000
Subject: [PATCH 15/21] fix: fstrm_capture: report failure to write or close
 the output file

---
 src/fstrm_capture.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index b53d04b..98cc13c 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -608,9 +608,18 @@ close_write_file(struct capture *ctx)
 		if (!close_write_stop(ctx))
 			return false;
 
-		/* Close the FILE object. */
-		fclose(ctx->output_file);
+		/* Close the FILE object, noticing any write error. */
+		bool failed = ferror(ctx->output_file);
+		if (fclose(ctx->output_file) != 0)
+			failed = true;
 		ctx->output_file = NULL;
+		if (failed) {
+			fprintf(stderr, "%s: failed to write output file %s\n",
+				argv_program,
+				ctx->output_fname ? ctx->output_fname :
+				ctx->args->str_write_fname);
+			return false;
+		}
 	}
 
 	/* Success. */
-- 
2.43.0


From 79f8138bcd0571ddd1684b02331513a900316a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:37 +0000
Subject: [PATCH 16/21] fix: argv: do not read past the end of the argument
 list

---
 libmy/argv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 6c64906..218c3f7 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1880,8 +1880,8 @@ static	int	check_or(const argv_t *args, const argv_t *which_p)
   if (match_p == NULL) {
     /* NOTE: we assume that which_p is not pointing now to ARGV_LAST */
     for (arg_p = which_p + 2;
-	 arg_p->ar_short_arg != ARGV_LAST
-	 && (arg_p - 1)->ar_short_arg != ARGV_LAST;
+	 (arg_p - 1)->ar_short_arg != ARGV_LAST
+	 && arg_p->ar_short_arg != ARGV_LAST;
 	 arg_p += 2) {
       if ((arg_p - 1)->ar_short_arg != ARGV_OR
 	  && (arg_p - 1)->ar_short_arg != ARGV_XOR) {
-- 
2.43.0


From 81f6c6e0418df181b5764a76ca6a752d00951aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:46 +0000
Subject: [PATCH 17/21] fix: fstrm_replay: fail if the stream could not be
 completed

---
 src/fstrm_replay.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fstrm_replay.c b/src/fstrm_replay.c
index 0b717cd..164afe2 100644
--- a/src/fstrm_replay.c
+++ b/src/fstrm_replay.c
@@ -285,8 +285,8 @@ int main(int argc, char **argv)
 
 	res = fstrm_writer_close(w);
 	if (res != fstrm_res_success)
-		fputs("Error: fstrm_writer_close() failed", stderr);
+		fputs("Error: fstrm_writer_close() failed\n", stderr);
 
 	fstrm_writer_destroy(&w);
-	return 0;
+	return (res == fstrm_res_success) ? EXIT_SUCCESS : EXIT_FAILURE;
 }
-- 
2.43.0


From ae1f8354c6980f34a8cafa9aa1e731c7ee55dd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:46 +0000
Subject: [PATCH 18/21] fix: fstrm_dump: report failure to write to standard
 output

---
 src/fstrm_dump.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fstrm_dump.c b/src/fstrm_dump.c
index cf7e38e..c4d180e 100644
--- a/src/fstrm_dump.c
+++ b/src/fstrm_dump.c
@@ -225,5 +225,11 @@ out:
 		fstrm_writer_destroy(&w);
 	}
 
+	/* Check that everything was printed. */
+	if (fflush(stdout) != 0 || ferror(stdout)) {
+		fputs("Error: failed to write to stdout.\n", stderr);
+		rv = EXIT_FAILURE;
+	}
+
 	return rv;
 }
-- 
2.43.0


From 98d30d299d3db0e65ab18d3df925fc4c9d930b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:12 +0000
Subject: [PATCH 19/21] fix: get_control: report failure when the control frame
 was not seen

fstrm_reader_get_control() and fstrm_writer_get_control() are documented to
return success if a control frame was returned, but returned success with a
NULL pointer for a frame that was not (yet) seen.  fstrm_dump therefore took
a truncated file for a complete one.
---
 fstrm/reader.c | 3 +++
 fstrm/writer.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index 84cd8dc..0d8ec39 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -449,5 +449,8 @@ fstrm_reader_get_control(struct fstrm_reader *r,
 		return fstrm_res_failure;
 	}
 
+	if (*control == NULL)
+		return fstrm_res_failure;
+
 	return fstrm_res_success;
 }
diff --git a/fstrm/writer.c b/fstrm/writer.c
index d39c01a..f78e608 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -456,5 +456,8 @@ fstrm_writer_get_control(struct fstrm_writer *w,
 		return fstrm_res_failure;
 	}
 
+	if (*control == NULL)
+		return fstrm_res_failure;
+
 	return fstrm_res_success;
 }
-- 
2.43.0


From f4df696be65bf202b44224fcc3201c7d9eb2ee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:09 +0000
Subject: [PATCH 20/21] fix: argv: grow the queue of options waiting for a
 value

The queue had one slot per argument, but one argument may hold several
short options (-uap) and --argv-file adds options of its own, so the
command line could write past the end of the queue.
---
 libmy/argv.c | 111 +++++++++++++++++++++++++++++++++------------------
 1 file changed, 73 insertions(+), 38 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 218c3f7..761747f 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -31,7 +31,7 @@
 
 /* internal routines -- we need this because of recusion */
 static	void	do_list(argv_t *grid, const int arg_c, char **argv,
-			argv_t **queue_list, int *queue_head_p,
+			argv_t ***queue_list_p, int *queue_head_p,
 			int *queue_tail_p, int *okay_bp);
 
 #define LOC_SNPRINTF(...)	(void)snprintf(__VA_ARGS__);
@@ -2150,7 +2150,8 @@ static	int	check_opt(const int queue_head, const int queue_tail)
  *
  * grid -> Array of argv_t structures we are using.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Pointer to our option queue for storing options
+ * to arguments.  It grows when an option is added to it.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2162,7 +2163,7 @@ static	int	check_opt(const int queue_head, const int queue_tail)
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	file_args(const char *path, argv_t *grid,
-			  argv_t **queue_list, int *queue_head_p,
+			  argv_t ***queue_list_p, int *queue_head_p,
 			  int *queue_tail_p, int *okay_bp)
 {
   char	**argv, **argv_p;
@@ -2256,7 +2257,8 @@ static	void	file_args(const char *path, argv_t *grid,
   }
   
   /* now do the list */
-  do_list(grid, arg_c, argv, queue_list, queue_head_p, queue_tail_p, okay_bp);
+  do_list(grid, arg_c, argv, queue_list_p, queue_head_p, queue_tail_p,
+	  okay_bp);
   
   /* now free up the list */
   for (argv_p = argv; argv_p < argv + arg_c; argv_p++) {
@@ -2269,6 +2271,53 @@ static	void	file_args(const char *path, argv_t *grid,
   }
 }
 
+/*
+ * static void enqueue
+ *
+ * DESCRIPTION:
+ *
+ * Add an entry to our option queue.  One argument may hold several
+ * options and the arguments may come from a file, so the queue grows
+ * with the number of its entries.
+ *
+ * RETURNS:
+ *
+ * None.
+ *
+ * ARGUMENTS:
+ *
+ * match_p -> Entry in our argv_t structure array waiting for a value
+ * or NULL for the file argument.
+ *
+ * queue_list_p <-> Pointer to our option queue.
+ *
+ * queue_head_p <-> Pointer to integer which will be updated with the
+ * head position in our option queue.
+ *
+ * okay_bp <- Pointer to an integer which is set with 0 if there is no
+ * memory left.
+ */
+static	void	enqueue(argv_t *match_p, argv_t ***queue_list_p,
+			int *queue_head_p, int *okay_bp)
+{
+  argv_t	**new_list;
+  
+  new_list = realloc(*queue_list_p,
+		     sizeof(argv_t *) * ((size_t)*queue_head_p + 1));
+  if (new_list == NULL) {
+    if (argv_error_stream != NULL) {
+      (void)fprintf(argv_error_stream,
+		    "%s: memory error during argument processing\n",
+		    argv_program);
+    }
+    *okay_bp = ARGV_FALSE;
+    return;
+  }
+  *queue_list_p = new_list;
+  new_list[*queue_head_p] = match_p;
+  (*queue_head_p)++;
+}
+
 /*
  * static void do_arg
  *
@@ -2291,7 +2340,8 @@ static	void	file_args(const char *path, argv_t *grid,
  * close_p -> Pointer to the value closely associated (with an '=')
  * with this option or NULL if none.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Pointer to our option queue for storing options
+ * to arguments.  It grows when an option is added to it.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2300,7 +2350,7 @@ static	void	file_args(const char *path, argv_t *grid,
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
-		       argv_t **queue_list, int *queue_head_p, int *okay_bp)
+		       argv_t ***queue_list_p, int *queue_head_p, int *okay_bp)
 {
   if (! argv_multi_accept_b) {
     /*
@@ -2356,8 +2406,7 @@ static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
     }
   }
   else {
-    queue_list[*queue_head_p] = match_p;
-    (*queue_head_p)++;
+    enqueue(match_p, queue_list_p, queue_head_p, okay_bp);
   }
 }
 
@@ -2421,7 +2470,8 @@ static	int	is_number(const char *str)
  *
  * argv - User argument array of character pointers.
  *
- * queue_list <-> Our option queue for storing options to arguments.
+ * queue_list_p <-> Pointer to our option queue for storing options
+ * to arguments.  It grows when an option is added to it.
  *
  * queue_head_p <-> Pointer to integer which will be updated with the
  * head position in our option queue.
@@ -2433,7 +2483,7 @@ static	int	is_number(const char *str)
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	do_list(argv_t *grid, const int arg_c, char **argv,
-			argv_t **queue_list, int *queue_head_p,
+			argv_t ***queue_list_p, int *queue_head_p,
 			int *queue_tail_p, int *okay_bp)
 {
   argv_t	*grid_p, *match_p;
@@ -2525,7 +2575,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
       }
       
       if (match_p != NULL) {
-	(void)do_arg(grid, match_p, close_p, queue_list, queue_head_p,
+	(void)do_arg(grid, match_p, close_p, queue_list_p, queue_head_p,
 		     okay_bp);
 	continue;
       }
@@ -2536,13 +2586,12 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
       if (strncmp(FILE_ARG, *arg_p + LONG_PREFIX_LENGTH, len) == 0) {
 	if (argv_close_enable_b && close_p != NULL) {
 	  /* open the file and read in the args */
-	  file_args(close_p, grid, queue_list, queue_head_p, queue_tail_p,
+	  file_args(close_p, grid, queue_list_p, queue_head_p, queue_tail_p,
 		    okay_bp);
 	}
 	else {
 	  /* HACK: we enqueue null for the file argument */
-	  queue_list[*queue_head_p] = NULL;
-	  (*queue_head_p)++;
+	  enqueue(NULL, queue_list_p, queue_head_p, okay_bp);
 	}
 	continue;
       }
@@ -2708,7 +2757,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	  if (char_c == 0 && is_number(*arg_p)
 	      && *queue_head_p > *queue_tail_p) {
 	    
-	    match_p = queue_list[*queue_tail_p];
+	    match_p = (*queue_list_p)[*queue_tail_p];
 	    /*
 	     * NOTE: we don't advance the queue tail here unless we
 	     * find out that we can use it below
@@ -2741,7 +2790,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	  continue;
 	}
 	
-	do_arg(grid, match_p, close_p, queue_list, queue_head_p, okay_bp);
+	do_arg(grid, match_p, close_p, queue_list_p, queue_head_p, okay_bp);
       }
       
       continue;
@@ -2751,12 +2800,12 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
     if (grid->ar_short_arg != ARGV_LAST && *queue_head_p > *queue_tail_p) {
       
       /* pull the variable waiting for a value from the queue */
-      match_p = queue_list[*queue_tail_p];
+      match_p = (*queue_list_p)[*queue_tail_p];
       (*queue_tail_p)++;
       
       /* HACK: is this the file argument */
       if (match_p == NULL) {
-	file_args(*arg_p, grid, queue_list, queue_head_p, queue_tail_p,
+	file_args(*arg_p, grid, queue_list_p, queue_head_p, queue_tail_p,
 		  okay_bp);
       }
       else {
@@ -3124,7 +3173,7 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   int		okay_b = ARGV_TRUE;
   argv_t	*arg_p;
   argv_t	**queue_list = NULL;
-  int		queue_head = 0, queue_tail = 0, env_n, total_arg_n;
+  int		queue_head = 0, queue_tail = 0, env_n;
   
   if (args == NULL) {
     args = empty;
@@ -3186,22 +3235,10 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
 
   /* preprocess environmental args */
   env_vect_p = preprocess_env_args(&environ_p, &env_n);
-  total_arg_n = arg_n + env_n;
 
-  /* allocate our value queue */
-  if (total_arg_n > 0) {
-    /* allocate our argument queue */
-    queue_list = (argv_t **)malloc(sizeof(argv_t *) * total_arg_n);
-    if (queue_list == NULL) {
-      return ERROR;
-    }
-    queue_head = 0;
-    queue_tail = 0;
-  }
-  
   /* do the env args before? */
   if (argv_process_env_b && (! argv_env_after_b) && env_vect_p != NULL) {
-    do_list(args, env_n, env_vect_p, queue_list, &queue_head, &queue_tail,
+    do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
     free(env_vect_p);
     free(environ_p);
@@ -3209,12 +3246,12 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   }
   
   /* do the external args */
-  do_list(args, arg_n - 1, argv + 1, queue_list, &queue_head, &queue_tail,
+  do_list(args, arg_n - 1, argv + 1, &queue_list, &queue_head, &queue_tail,
 	  &okay_b);
   
   /* DO the env args after? */
   if (argv_process_env_b && argv_env_after_b && env_vect_p != NULL) {
-    do_list(args, env_n, env_vect_p, queue_list, &queue_head, &queue_tail,
+    do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
     free(env_vect_p);
     free(environ_p);
@@ -3232,10 +3269,8 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
     okay_b = ARGV_FALSE;
   }
   
-  /* if we allocated the space then free it */
-  if (arg_n > 0) {
-    free(queue_list);
-  }
+  /* free the queue */
+  free(queue_list);
   
   /* was there an error? */
   if (! okay_b) {
-- 
2.43.0


From 7d8b1099303194ed47133378d1d52aaf3678c35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:09 +0000
Subject: [PATCH 21/21] fix: argv: negative number after --argv-file

The queue holds NULL for the file argument; the check for a negative
number dereferenced it.
---
 libmy/argv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 761747f..7eaad72 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2763,7 +2763,8 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	     * find out that we can use it below
 	     */
 	    
-	    switch (ARGV_TYPE(match_p->ar_type)) {
+	    /* the queue holds a null for the file argument */
+	    switch (match_p == NULL ? 0 : ARGV_TYPE(match_p->ar_type)) {
 	      
 	    case ARGV_SHORT:
 	    case ARGV_INT:
-- 
2.43.0

