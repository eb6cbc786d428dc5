From 638c2d5d661a979c361e2ebb45f3a9899e4d5ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:12 +0000
Subject: [PATCH 01/17] fix: picohttpparser reads past the end of the buffer
 after a token followed by spaces

---
 src/picohttpparser/picohttpparser.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/picohttpparser/picohttpparser.c b/src/picohttpparser/picohttpparser.c
index 74ccc3e..77bd596 100644
--- a/src/picohttpparser/picohttpparser.c
+++ b/src/picohttpparser/picohttpparser.c
@@ -355,10 +355,12 @@ static const char *parse_request(const char *buf, const char *buf_end, const cha
     ADVANCE_TOKEN(*method, *method_len);
     do {
         ++buf;
+        CHECK_EOF();
     } while (*buf == ' ');
     ADVANCE_TOKEN(*path, *path_len);
     do {
         ++buf;
+        CHECK_EOF();
     } while (*buf == ' ');
     if (*method_len == 0 || *path_len == 0) {
         *ret = -1;
@@ -422,6 +424,7 @@ static const char *parse_response(const char *buf, const char *buf_end, int *min
     }
     do {
         ++buf;
+        CHECK_EOF();
     } while (*buf == ' ');
     /* parse status code, we want at least [:digit:][:digit:][:digit:]<other char> to try to parse */
     if (buf_end - buf < 4) {
-- 
2.43.0


From feb67c6b6958bbec80532c6f72da36ced00a3765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 02/17] fix: string_write loses its place after a short write

---
 src/reactor/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/string.c b/src/reactor/string.c
index 4c09f92..b204333 100644
--- a/src/reactor/string.c
+++ b/src/reactor/string.c
@@ -220,7 +220,7 @@ void string_write(string s, int fd)
   {
     n = write(fd, s + offset, string_size(s) - offset);
     assert(n > 0);
-    offset -= n;
+    offset += n;
   }
 }
 
-- 
2.43.0


From 6d3eb65bcd9852a3b63f6b5d3c1a7818c62d3a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 03/17] fix: string_free leaks an allocated string that has
 become empty

---
 src/reactor/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/string.c b/src/reactor/string.c
index b204333..0fb3bea 100644
--- a/src/reactor/string.c
+++ b/src/reactor/string.c
@@ -35,7 +35,7 @@ string string_null(void)
 
 void string_free(string s)
 {
-  if (!string_equal(s, string_null()))
+  if (s != string_null())
     free(string_header(s));
 }
 
-- 
2.43.0


From 2bcdcf260dd507e9555d9c48afec1a13b59cdbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 04/17] fix: string_save leaves the tail of a longer file in
 place

---
 src/reactor/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/string.c b/src/reactor/string.c
index 0fb3bea..3a7b579 100644
--- a/src/reactor/string.c
+++ b/src/reactor/string.c
@@ -228,7 +228,7 @@ int string_save(string s, const char *path)
 {
   int fd;
 
-  fd = open(path, O_WRONLY);
+  fd = open(path, O_WRONLY | O_TRUNC);
   if (fd == -1)
     return -1;
 
-- 
2.43.0


From e2b7742a98e486ec477751f2702e8a89933cf97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 05/17] fix: http_write_response reserves a fixed size for the
 date

---
 src/reactor/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/http.c b/src/reactor/http.c
index 1fb7124..7a8cab7 100644
--- a/src/reactor/http.c
+++ b/src/reactor/http.c
@@ -111,7 +111,7 @@ void http_write_response(stream *stream, data status, data date, data type, data
   utility_u32_sprint(data_size(body), storage + size);
   length = data_construct(storage, size);
 
-  p = stream_allocate(stream, 9 + data_size(status) + 2 + 17 + 37 +
+  p = stream_allocate(stream, 9 + data_size(status) + 2 + 17 + 8 + data_size(date) +
                       (data_empty(type) ? 0 : 16 + data_size(type)) +
                       (18 + data_size(length)) + 2 + data_size(body));
   pointer_push(&p, data_string("HTTP/1.1 "));
-- 
2.43.0


From 84a151f8eda2e44551e4c19706355f6951b3d753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 06/17] fix: only the first of several signals raised before a
 dispatch is delivered

---
 src/reactor/event.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/event.c b/src/reactor/event.c
index c66e6e1..f9785cb 100644
--- a/src/reactor/event.c
+++ b/src/reactor/event.c
@@ -33,7 +33,7 @@ void event_open(event *event)
 
   fd = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK | EFD_SEMAPHORE);
   assert(fd != -1);
-  descriptor_open(&event->descriptor, fd, DESCRIPTOR_READ);
+  descriptor_open(&event->descriptor, fd, DESCRIPTOR_READ | DESCRIPTOR_LEVEL);
 }
 
 int event_is_open(event *event)
-- 
2.43.0


From e004d9e3208908b193cc4c40f2a6fbfd187625a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 07/17] fix: re-arming an expired timer before its event is
 dispatched aborts

---
 src/reactor/timer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reactor/timer.c b/src/reactor/timer.c
index a141b88..2f3f70c 100644
--- a/src/reactor/timer.c
+++ b/src/reactor/timer.c
@@ -28,8 +28,8 @@ static void timer_callback(reactor_event *event)
     assert(n == sizeof expirations);
     total += expirations;
   }
-  assert(total);
-  reactor_dispatch(&timer->handler, TIMER_EXPIRATION, total);
+  if (total)
+    reactor_dispatch(&timer->handler, TIMER_EXPIRATION, total);
 }
 
 void timer_construct(timer *timer, reactor_callback *callback, void *state)
-- 
2.43.0


From e1dfaf7d489fe0bd4868200f0e28baf30f127698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 08/17] fix: write notification is sent unasked, and before the
 output is drained

---
 src/reactor/stream.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index 48d24bc..a7873b5 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -78,7 +78,7 @@ static void stream_socket_callback(reactor_event *event)
     break;
   case DESCRIPTOR_WRITE:
     stream_socket_write(stream);
-    if (buffer_size(&stream->output) == 0 || stream->notify)
+    if (buffer_size(&stream->output) == 0 && stream->notify)
     {
       stream->notify = 0;
       stream_socket_update(stream);
-- 
2.43.0


From bfa3e4b6248705d0b846323595e952fc6d156108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 09/17] fix: writing to a stream the peer has closed aborts the
 process

---
 src/reactor/stream.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index a7873b5..df149ee 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -1,6 +1,5 @@
 #include <stdio.h>
 #include <unistd.h>
-#include <errno.h>
 #include <assert.h>
 #include <sys/socket.h>
 #include <sys/stat.h>
@@ -55,10 +54,7 @@ static void stream_socket_write(stream *stream)
   {
     n = write(descriptor_fd(&stream->descriptor), data + total, size - total);
     if (n == -1)
-    {
-      assert(errno == EAGAIN);
       break;
-    }
     total += n;
   }
   buffer_erase(&stream->output, 0, total);
-- 
2.43.0


From 3e358ac74403b2f82c2326ece2926420f87d7b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 10/17] fix: TLS output of more than a couple of records
 stalls, as the edge is used up by one record

---
 src/reactor/stream.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index df149ee..07fe50b 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -134,9 +134,12 @@ static void stream_ssl_flush(stream *stream)
   ssize_t n;
 
   assert(stream_ssl_activated);
-  n = SSL_write(stream->ssl, buffer_data(&stream->output), buffer_size(&stream->output));
-  if (n > 0)
-    buffer_erase(&stream->output, 0, n);
+  do
+  {
+    n = SSL_write(stream->ssl, buffer_data(&stream->output), buffer_size(&stream->output));
+    if (n > 0)
+      buffer_erase(&stream->output, 0, n);
+  } while (n > 0 && buffer_size(&stream->output));
   stream->ssl_state = SSL_get_error(stream->ssl, n);
 }
 
-- 
2.43.0


From 829b008b3bb2b3349b20b6b435a1aa1c010f9615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 11/17] fix: a closed stream keeps a pointer to its freed SSL
 object

---
 src/reactor/stream.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reactor/stream.c b/src/reactor/stream.c
index 07fe50b..7ead5ad 100644
--- a/src/reactor/stream.c
+++ b/src/reactor/stream.c
@@ -245,6 +245,7 @@ void stream_close(stream *stream)
   if (stream_ssl_activated)
     SSL_free(stream->ssl);
 
+  stream->ssl = NULL;
   stream->notify = 0;
   descriptor_close(&stream->descriptor);
   buffer_clear(&stream->input);
-- 
2.43.0


From 646f38c74a4ccfef9abb4f1f159bc05e8eacd21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 12/17] fix: responses sent before the first timer tick carry a
 date of NUL bytes

---
 src/reactor/server.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index c185fd3..7dd194d 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -24,11 +24,6 @@ static __thread int server_ssl_activated = 0;
 
 static __thread char server_date_string[30];
 
-static data server_date(void)
-{
-  return data_construct(server_date_string, 29);
-}
-
 static void server_date_update(void)
 {
   time_t t;
@@ -43,6 +38,13 @@ static void server_date_update(void)
   memcpy(server_date_string + 8, months[tm.tm_mon], 3);
 }
 
+static data server_date(void)
+{
+  if (!*server_date_string)
+    server_date_update();
+  return data_construct(server_date_string, 29);
+}
+
 /* common routines */
 
 static void server_request_read(server_request *request)
-- 
2.43.0


From 306acf457774f089027bb0206a92cac0d183cc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 13/17] fix: a request held by a handler is freed by shutdown
 followed by disconnect, or by a second shutdown

---
 src/reactor/server.c | 12 ++++++++++--
 src/reactor/server.h |  1 +
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index 7dd194d..7306ddb 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -47,6 +47,14 @@ static data server_date(void)
 
 /* common routines */
 
+static void server_request_drop(server_request *request)
+{
+  if (request->dropped)
+    return;
+  request->dropped = 1;
+  server_release(request);
+}
+
 static void server_request_read(server_request *request)
 {
   ssize_t n;
@@ -225,7 +233,7 @@ void server_shutdown(server *server)
   while (request != list_end(&server->requests))
   {
     next = list_next(request);
-    server_release(request);
+    server_request_drop(request);
     request = next;
   }
 
@@ -251,7 +259,7 @@ void server_close(server_request *request)
   {
     stream_close(&request->stream);
     request->state = SERVER_REQUEST_CLOSED;
-    server_release(request);
+    server_request_drop(request);
   }
 }
 
diff --git a/src/reactor/server.h b/src/reactor/server.h
index 68d11ed..e623393 100644
--- a/src/reactor/server.h
+++ b/src/reactor/server.h
@@ -36,6 +36,7 @@ struct server_request
   size_t              ref;
   enum server_state   state;
   int                 event_triggered;
+  int                 dropped;
   reactor_handler     handler;
   stream              stream;
   data                data;
-- 
2.43.0


From 4d65fed223cbe60e644fbd8f7cdfac2004e9451b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 14/17] fix: a connection aborted while queued leaves the ones
 behind it unaccepted

---
 src/reactor/server.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/reactor/server.c b/src/reactor/server.c
index 7306ddb..6d56d15 100644
--- a/src/reactor/server.c
+++ b/src/reactor/server.c
@@ -4,6 +4,7 @@
 #include <stdarg.h>
 #include <string.h>
 #include <assert.h>
+#include <errno.h>
 #include <sys/socket.h>
 
 #include <openssl/ssl.h>
@@ -151,6 +152,8 @@ static void server_socket_descriptor_callback(reactor_event *event)
   while (1)
   {
     fd = accept4(descriptor_fd(&server->descriptor), NULL, NULL, SOCK_NONBLOCK);
+    if (fd == -1 && (errno == EINTR || errno == ECONNABORTED))
+      continue;
     if (fd == -1)
       break;
     server_socket_accept(server, fd);
@@ -185,6 +188,8 @@ static void server_ssl_descriptor_callback(reactor_event *event)
   while (1)
   {
     fd = accept4(descriptor_fd(&server->descriptor), NULL, NULL, SOCK_NONBLOCK);
+    if (fd == -1 && (errno == EINTR || errno == ECONNABORTED))
+      continue;
     if (fd == -1)
       break;
     server_ssl_accept(server, fd);
-- 
2.43.0


From b52e29bb99a8b81d012652c8974a7fec23ffbca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 15/17] fix: an inotify event without a watch, such as a queue
 overflow, aborts the process

---
 src/reactor/notify.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/reactor/notify.c b/src/reactor/notify.c
index d33feff..7643695 100644
--- a/src/reactor/notify.c
+++ b/src/reactor/notify.c
@@ -42,10 +42,12 @@ static void notify_callback(reactor_event *event)
     {
       inotify_event = (struct inotify_event *) p;
       e = list_front(&notify->entries);
-      while (e->id != inotify_event->wd)
-      {
+      while (e != list_end(&notify->entries) && e->id != inotify_event->wd)
         e = list_next(e);
-        assert(e != list_end(&notify->entries));
+      if (e == list_end(&notify->entries))
+      {
+        notify->errors++;
+        continue;
       }
       notify_event = (struct notify_event) {.mask = inotify_event->mask, .id = e->id,
         .name = inotify_event->len ? inotify_event->name : "", .path = e->path};
-- 
2.43.0


From 43d052299467e2f8fb64dcd05275d0199d3b3dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 16/17] fix: clearing watches keeps the old paths, and aborts
 when done from a callback

---
 src/reactor/notify.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/reactor/notify.c b/src/reactor/notify.c
index 7643695..34cbe54 100644
--- a/src/reactor/notify.c
+++ b/src/reactor/notify.c
@@ -71,6 +71,12 @@ void notify_construct(notify *notify, reactor_callback *callback, void *state)
 void notify_clear(notify *notify)
 {
   descriptor_close(&notify->descriptor);
+  list_clear(&notify->entries, notify_release_entry);
+  if (notify->cancel)
+  {
+    *(notify->cancel) = 1;
+    notify->cancel = NULL;
+  }
 }
 
 int notify_watch(notify *notify, char *path, uint32_t mask)
@@ -98,10 +104,4 @@ int notify_watch(notify *notify, char *path, uint32_t mask)
 void notify_destruct(notify *notify)
 {
   notify_clear(notify);
-  list_destruct(&notify->entries, notify_release_entry);
-  if (notify->cancel)
-  {
-    *(notify->cancel) = 1;
-    notify->cancel = NULL;
-  }
 }
-- 
2.43.0


From 45ace4049c70da2af13ccf7639ec2a9e46db47d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 17/17] fix: net_socket aborts when a socket cannot be created
 or put to listen

---
 src/reactor/net.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/reactor/net.c b/src/reactor/net.c
index 4849c5d..3339903 100644
--- a/src/reactor/net.c
+++ b/src/reactor/net.c
@@ -27,22 +27,24 @@ int net_socket(struct addrinfo *addrinfo)
   if (!addrinfo)
     return -1;
   fd = socket(addrinfo->ai_family, addrinfo->ai_socktype | SOCK_NONBLOCK, addrinfo->ai_protocol);
+  if (fd == -1)
+  {
+    freeaddrinfo(addrinfo);
+    return -1;
+  }
   if (addrinfo->ai_flags & AI_PASSIVE)
   {
     (void) setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, (int[]) {1}, sizeof(int));
     (void) setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, (int[]) {1}, sizeof(int));
     e = bind(fd, addrinfo->ai_addr, addrinfo->ai_addrlen);
+    if (e == 0)
+      e = listen(fd, INT_MAX);
     if (e == -1)
     {
       e = close(fd);
       assert(e == 0);
       fd = -1;
     }
-    else
-    {
-      e = listen(fd, INT_MAX);
-      assert(e == 0);
-    }
   }
   else
     (void) connect(fd, addrinfo->ai_addr, addrinfo->ai_addrlen);
-- 
2.43.0

