From aaac8df2f029d5f00b5aadb8b863bfd2fc0000a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:26 +0000
Subject: [PATCH 01/28] fix: call each matching endpoint once when searching
 for hyperlinks

The hyperlink search registered a match for every branch of a node that was
popped at the end of the path, so a rejecting endpoint was asked up to three
times, and endpoints that do not match at all could be reached through an
unfinished variable sequence.
---
 src/handler/tree_router.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 6855d5d..0474c6b 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -178,9 +178,9 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
                     }
                 }
 
-                matches.push((&current.item, environment.route_state.clone()));
-
                 if branch == Static {
+                    matches.push((&current.item, environment.route_state.clone()));
+
                     let base_link = Link {
                         method: None,
                         path: vec![],
-- 
2.43.0


From 1f9b4738d8a4a748261a586ea5ab27b290f9175d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:29 +0000
Subject: [PATCH 02/28] fix: restore the path position when the tree router
 rejects a request

A fallback handler was given a route state that pointed to the end of the
path (or somewhere in the middle of it), so a second tree router could not
find its routes.
---
 src/handler/tree_router.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 0474c6b..22eeb9d 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -172,6 +172,7 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
                     let (new_environment, old_hyperlinks) = environment.replace_hyperlinks(vec![]);
                     if let Err(returned_environment) = current.item.handle_request(new_environment) {
                         environment = returned_environment.replace_hyperlinks(old_hyperlinks).0;
+                        environment.route_state.go_to(now);
                         return Err(environment);
                     } else {
                         return Ok(());
@@ -283,7 +284,7 @@ impl<T: HandleRequest> HandleRequest for TreeRouter<T> {
             environment = new_environment.replace_hyperlinks(old_hyperlinks).0;
         }
 
-
+        environment.route_state.go_to(now);
         Err(environment)
     }
 
-- 
2.43.0


From 1885e3ec7cea24e4e7d110d4a6ea823ca6115b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:50 +0000
Subject: [PATCH 03/28] fix: end response filters in order and report their
 aborts

The output of the end step was produced in reverse order, but handed over to
the filters as if it was produced in stack order, so it passed the wrong
filters. An abort from the end step was dropped and reported as success.
---
 src/response.rs | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 4656a17..baa8171 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1200,23 +1200,10 @@ fn filter_content<'a, 'd: 'a, Content: Into<Data<'d>>>(filters: &'a [Box<Respons
 }
 
 fn filter_end<'a>(filters: &'a [Box<ResponseFilter>], global: &Global, filter_storage: &mut AnyMap) -> Result<Vec<Action<'a>>, Error> {
-    let otuputs: Vec<_> = filters.into_iter()
-        .rev()
-        .map(|filter| {
-            let filter_context = FilterContext {
-                storage: filter_storage,
-                global: global,
-            };
-
-            filter.end(filter_context)
-        })
-        .take_while(|a| if let Action::Next(_) = *a { true } else { false })
-        .map(Some)
-        .collect();
-
     let mut write_queue = vec![];
+    let mut silenced = false;
 
-    for (filter, action) in filters.into_iter().zip(otuputs.into_iter().chain(::std::iter::repeat(None))) {
+    for filter in filters {
         let mut error = None;
 
         write_queue = write_queue.into_iter().filter_map(|action| match action {
@@ -1238,8 +1225,17 @@ fn filter_end<'a>(filters: &'a [Box<ResponseFilter>], global: &Global, filter_st
             return Err(Error::Filter(e))
         }
 
-        if let Some(action) = action {
-            write_queue.push(action);
+        if !silenced {
+            let filter_context = FilterContext {
+                storage: filter_storage,
+                global: global,
+            };
+
+            match filter.end(filter_context) {
+                Action::Abort(e) => return Err(Error::Filter(e)),
+                Action::SilentAbort => silenced = true,
+                action => write_queue.push(action)
+            }
         }
     }
 
-- 
2.43.0


From be43ea7718a9168d1a4a3417cc83a6237b368464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:01 +0000
Subject: [PATCH 04/28] fix: do not panic when a response filter withholds a
 chunk

A silent abort from the write step hit an unreachable!().
---
 src/response.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index baa8171..84ad310 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -939,8 +939,7 @@ impl<'a, 'b> Chunked<'a, 'b> {
             Some(Err(e)) => Err(Error::Io(e)),
             None => match filter_result {
                 Action::Abort(e) => Err(Error::Filter(e)),
-                Action::Next(None) => Ok(0),
-                _ => unreachable!()
+                _ => Ok(0)
             }
         }
     }
-- 
2.43.0


From 590f5e186f98377bd2a959bf03f16a9bf512ae87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:19 +0000
Subject: [PATCH 05/28] fix: a withheld piece of data does not discard what
 follows it

A silent abort from the write step of one piece of filter generated data
stopped the queue, so data from filters further down the stack was lost.
---
 src/response.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 84ad310..5e735e4 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -671,7 +671,7 @@ impl<'a, 'b> Response<'a, 'b> {
                     Action::Next(Some(content)) => buffer.push_bytes(content.as_bytes()),
                     Action::Next(None) => {},
                     Action::Abort(e) => return Err(Error::Filter(e)),
-                    Action::SilentAbort => break
+                    Action::SilentAbort => {}
                 }
             }
 
@@ -688,7 +688,7 @@ impl<'a, 'b> Response<'a, 'b> {
                     Action::Next(Some(content)) => buffer.push_bytes(content.as_bytes()),
                     Action::Next(None) => {},
                     Action::Abort(e) => return Err(Error::Filter(e)),
-                    Action::SilentAbort => break
+                    Action::SilentAbort => {}
                 }
             }
 
@@ -795,7 +795,7 @@ impl<'a, 'b> Response<'a, 'b> {
                     Action::Next(Some(content)) => try!(writer.write_all(content.as_bytes())),
                     Action::Next(None) => {},
                     Action::Abort(e) => return Err(Error::Filter(e)),
-                    Action::SilentAbort => break
+                    Action::SilentAbort => {}
                 }
             }
 
-- 
2.43.0


From eb31ee6a0a0fcadc95d2d3ac5c5f6b75d2c2f989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:22 +0000
Subject: [PATCH 06/28] fix: remove Content-Length from chunked responses after
 filtering

A response filter could add it back, which made the body a fixed size one.
---
 src/response.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 5e735e4..21e874f 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -773,10 +773,6 @@ impl<'a, 'b> Response<'a, 'b> {
     pub fn into_chunked(mut self) -> Chunked<'a, 'b> {
         let mut writer = self.writer.take().expect("response used after drop");
 
-        //Make sure it's chunked
-        writer.headers_mut().remove::<::header::ContentLength>();
-        writer.headers_mut().remove_raw("content-length");
-
         let writer = filter_headers(
             self.filters,
             writer.status(),
@@ -788,6 +784,11 @@ impl<'a, 'b> Response<'a, 'b> {
                 writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
             }
             *writer.status_mut() = status;
+
+            //Make sure it's chunked
+            writer.headers_mut().remove::<::header::ContentLength>();
+            writer.headers_mut().remove_raw("content-length");
+
             let mut writer = try!(writer.start());
 
             for action in write_queue {
-- 
2.43.0


From 1330003f5fe072e8f89b5f8ac121f7ea0a045c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:25 +0000
Subject: [PATCH 07/28] fix: force the connection closed when a response filter
 aborts

The response is completed without a body in that case, but it has to be
marked with 'Connection: close' like any other.
---
 src/response.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 21e874f..de4dba4 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -655,16 +655,17 @@ impl<'a, 'b> Response<'a, 'b> {
         } else {
             let mut buffer = vec![];
 
-            let (status, write_queue) = try!(filter_headers(
+            let filter_result = filter_headers(
                 self.filters,
                 writer.status(),
                 writer.headers_mut(),
                 self.global,
                 &mut filter_storage
-            ));
+            );
             if self.force_close {
                 writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
             }
+            let (status, write_queue) = try!(filter_result);
             *writer.status_mut() = status;
             for action in write_queue {
                 match action {
@@ -773,16 +774,18 @@ impl<'a, 'b> Response<'a, 'b> {
     pub fn into_chunked(mut self) -> Chunked<'a, 'b> {
         let mut writer = self.writer.take().expect("response used after drop");
 
-        let writer = filter_headers(
+        let filter_result = filter_headers(
             self.filters,
             writer.status(),
             writer.headers_mut(),
             self.global,
             self.filter_storage_mut()
-        ).and_then(|(status, write_queue)|{
-            if self.force_close {
-                writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
-            }
+        );
+        if self.force_close {
+            writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
+        }
+
+        let writer = filter_result.and_then(|(status, write_queue)|{
             *writer.status_mut() = status;
 
             //Make sure it's chunked
-- 
2.43.0


From 475fe4f4fc80509cd5e474e57cc0582e1df35026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:50 +0000
Subject: [PATCH 08/28] fix: do not declare a content length when a response
 filter aborts

The response is completed without a body, so a length that was set by the
handler or a filter made the client wait for data that never came.
---
 src/response.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index de4dba4..0210b76 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -665,6 +665,9 @@ impl<'a, 'b> Response<'a, 'b> {
             if self.force_close {
                 writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
             }
+            //The length is set when the body is known
+            writer.headers_mut().remove_raw("content-length");
+
             let (status, write_queue) = try!(filter_result);
             *writer.status_mut() = status;
             for action in write_queue {
@@ -785,13 +788,12 @@ impl<'a, 'b> Response<'a, 'b> {
             writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
         }
 
+        //Make sure it's chunked
+        writer.headers_mut().remove::<::header::ContentLength>();
+        writer.headers_mut().remove_raw("content-length");
+
         let writer = filter_result.and_then(|(status, write_queue)|{
             *writer.status_mut() = status;
-
-            //Make sure it's chunked
-            writer.headers_mut().remove::<::header::ContentLength>();
-            writer.headers_mut().remove_raw("content-length");
-
             let mut writer = try!(writer.start());
 
             for action in write_queue {
-- 
2.43.0


From 485b51ffc7702e5ef5b8ebce190cc4059f5935f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:52 +0000
Subject: [PATCH 09/28] fix: answer with an error when a handler panics

A response that is dropped by an unwinding thread was sent as a successful,
empty one. The filters are not run, since a second panic would abort the
process.
---
 src/response.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 0210b76..62b607c 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -841,7 +841,16 @@ impl<'a, 'b> Response<'a, 'b> {
 impl<'a, 'b> Drop for Response<'a, 'b> {
     ///Writes status code and headers and closes the connection.
     fn drop(&mut self) {
-        if self.writer.is_some() {
+        if ::std::thread::panicking() {
+            //Don't report success and don't run any filters. Completed by the writer.
+            if let Some(mut writer) = self.writer.take() {
+                *writer.status_mut() = StatusCode::InternalServerError;
+                writer.headers_mut().remove_raw("content-length");
+                if self.force_close {
+                    writer.headers_mut().set(Connection(vec![ConnectionOption::Close]));
+                }
+            }
+        } else if self.writer.is_some() {
             self.send_sized(&[][..]);
         }
     }
-- 
2.43.0


From c27f7efcdb67dda4595fa96b5d7903c8aaac9098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:04 +0000
Subject: [PATCH 10/28] fix: ending a chunked response after a reported error
 does not panic

---
 src/response.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 62b607c..59444b3 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -968,7 +968,11 @@ impl<'a, 'b> Chunked<'a, 'b> {
     }
 
     fn finish(&mut self) -> Result<(), Error> {
-        let mut writer = try!(self.writer.take().expect("can only finish once"));
+        let mut writer = match self.writer.take() {
+            Some(writer) => try!(writer),
+            //An earlier error has already been reported
+            None => return Err(Error::Io(io::Error::new(io::ErrorKind::BrokenPipe, "write after close")))
+        };
         let write_queue = try!(filter_end(self.filters, self.global, &mut self.filter_storage));
 
         for action in write_queue {
-- 
2.43.0


From c3f95a5e02efa3b69c7292f1cea8aae46a53eed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:07 +0000
Subject: [PATCH 11/28] fix: a mock response accepts everything that is written
 to it

---
 src/response.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 59444b3..8f6ef3d 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -465,7 +465,7 @@ impl<'a> Write for MaybeMock<hyper::server::response::Response<'a, hyper::net::S
         if let MaybeMock::Actual(ref mut response) = *self {
             response.write(buffer)
         } else {
-            Ok(0)
+            Ok(buffer.len())
         }
     }
 
-- 
2.43.0


From a61740f30771105ff80232617384724ff7c04e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:10 +0000
Subject: [PATCH 12/28] fix: Chunked::write reports how much of its input that
 was used

---
 src/response.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 8f6ef3d..279de52 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1001,7 +1001,8 @@ impl<'a, 'b> Chunked<'a, 'b> {
 
 impl<'a, 'b> Write for Chunked<'a, 'b> {
     fn write(&mut self, content: &[u8]) -> io::Result<usize> {
-        response_to_io_result(self.try_send(content))
+        //The filters may have changed the length, but all of the content was used
+        response_to_io_result(self.try_send(content)).map(|_| content.len())
     }
 
     fn write_all(&mut self, content: &[u8]) -> io::Result<()> {
-- 
2.43.0


From dc5ab4c86ec248827bf3ef92cbe22b72eba2f561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:13 +0000
Subject: [PATCH 13/28] fix: a question mark in the fragment does not begin a
 query

---
 src/server/instance.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index 327f455..faffadb 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -238,9 +238,11 @@ impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
 }
 
 fn parse_path(path: &str) -> ParsedUri {
+    let (path, fragment) = parse_fragment(path);
+
     match path.find('?') {
         Some(index) => {
-            let (query, fragment) = parse_fragment(&path[index+1..]);
+            let query = &path[index+1..];
 
             let mut path: Vec<_> = percent_decode(path[..index].as_bytes()).collect();
             if path.is_empty() {
@@ -255,8 +257,6 @@ fn parse_path(path: &str) -> ParsedUri {
             }
         },
         None => {
-            let (path, fragment) = parse_fragment(&path);
-
             let mut path: Vec<_> = percent_decode(path.as_bytes()).collect();
             if path.is_empty() {
                 path.push(b'/');
-- 
2.43.0


From 70c96f4bee7cb657e210aa37e575bcb2610d7a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:16 +0000
Subject: [PATCH 14/28] fix: keep the exact bytes of query parameters in
 absolute URLs

---
 src/server/instance.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index faffadb..d270a20 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -283,9 +283,9 @@ fn parse_url(url: &Url) -> ParsedUri {
     let mut path = vec![];
     path.extend(percent_decode(url.path().as_bytes()));
 
-    let query = url.query_pairs()
-        .map(|(k, v)| (k.into_owned(), v.into_owned()))
-        .collect();
+    let query = url.query()
+        .map(|query| utils::parse_parameters(query.as_bytes()))
+        .unwrap_or_else(Parameters::new);
 
     let host = url.host_str().map(|host| (host.into(), url.port()));
 
-- 
2.43.0


From c2da0608f569d3e0bb89a1c1f0453edc152129e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:07 +0000
Subject: [PATCH 15/28] fix: on_route replaces the handler of an already
 existing node

---
 src/handler/tree_router.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 22eeb9d..18f2f5d 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -584,11 +584,7 @@ impl<'a, T> Builder<'a, T> {
         let label = if let Some(label) = label_iter.next() {
             label
         } else {
-            return Builder {
-                node: self.node,
-                variables: self.variables.clone(),
-                context: self.context.clone()
-            };
+            return self.handler(handler);
         };
 
         if label_iter.next().is_some() {
@@ -599,11 +595,14 @@ impl<'a, T> Builder<'a, T> {
             variables.to_mut().push(label[1..].to_owned().into());
         }
 
-        let node = self.node.find_or_insert_router(label, || {
-            let mut new_context = context.clone().into_owned();
-            new_context.insert(VariableNames(variables.clone().into_owned()));
-            T::from_handler(new_context, handler)
-        });
+        let mut new_context = context.clone().into_owned();
+        new_context.insert(VariableNames(variables.clone().into_owned()));
+        let mut item = Some(T::from_handler(new_context, handler));
+
+        let node = self.node.find_or_insert_router(label, || item.take().unwrap());
+        if let Some(item) = item {
+            node.item = item;
+        }
 
         Builder {
             node: node,
-- 
2.43.0


From 107757146ae458526244fdaccf210dd79f3abef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:10 +0000
Subject: [PATCH 16/28] fix: do not panic on empty segments when a route is
 registered

---
 src/handler/tree_router.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 18f2f5d..70e9b5c 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -452,7 +452,7 @@ impl<'a, T: Default + ApplyContext> Builder<'a, T> {
         let context = self.context.clone();
 
         let node = path.as_ref().segments().fold(&mut *self.node, |node, segment| {
-            if segment[0] == b':' || segment[0] == b'*' {
+            if segment.starts_with(b":") || segment.starts_with(b"*") {
                 variables.to_mut().push(segment[1..].to_owned().into());
             }
 
@@ -501,7 +501,7 @@ impl<'a, T: Default + ApplyContext> Builder<'a, T> {
         let context = self.context.clone();
 
         let node = path.as_ref().segments().fold(&mut *self.node, |node, segment| {
-            if segment[0] == b':' || segment[0] == b'*' {
+            if segment.starts_with(b":") || segment.starts_with(b"*") {
                 variables.to_mut().push(segment[1..].to_owned().into());
             }
 
@@ -591,7 +591,7 @@ impl<'a, T> Builder<'a, T> {
             panic!("expected at most a single label, but got a longer path");
         }
 
-        if label[0] == b':' || label[0] == b'*' {
+        if label.starts_with(b":") || label.starts_with(b"*") {
             variables.to_mut().push(label[1..].to_owned().into());
         }
 
-- 
2.43.0


From f5931f41d15b662a7802bf91679443cf9e53c41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:14 +0000
Subject: [PATCH 17/28] fix: do not print debug messages when routers are
 merged

---
 src/handler/method_router.rs | 2 --
 src/handler/tree_router.rs   | 1 -
 2 files changed, 3 deletions(-)

diff --git a/src/handler/method_router.rs b/src/handler/method_router.rs
index 69bfbcd..28977af 100644
--- a/src/handler/method_router.rs
+++ b/src/handler/method_router.rs
@@ -118,9 +118,7 @@ impl<T: ApplyContext> ApplyContext for MethodRouter<T> {
 
 impl<T: Merge> Merge for MethodRouter<T> {
     fn merge(&mut self, other: MethodRouter<T>) {
-        println!("merging {:} methods with {:} methods", self.handlers.len(), other.handlers.len());
         for (method, handler) in other.handlers {
-            println!("merging {:}", method);
             match self.handlers.entry(method) {
                 Entry::Vacant(entry) => { entry.insert(handler); },
                 Entry::Occupied(mut entry) => entry.get_mut().merge(handler),
diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index 70e9b5c..a1f66a3 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -394,7 +394,6 @@ impl<T: Merge> Merge for TreeRouter<T> {
         self.item.merge(other.item);
 
         for (key, other_node) in other.static_routes {
-            println!("merging {:}", key.as_utf8_lossy());
             match self.static_routes.entry(key) {
                 Vacant(entry) => { entry.insert(other_node); },
                 Occupied(mut entry) => entry.get_mut().merge(other_node)
-- 
2.43.0


From dc4213ccee7a726b0ea9f52d396fbd06c4f35000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:17 +0000
Subject: [PATCH 18/28] fix: forward the handler description through Arc and
 Box

---
 src/handler/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/handler/mod.rs b/src/handler/mod.rs
index f8bf982..96217c6 100644
--- a/src/handler/mod.rs
+++ b/src/handler/mod.rs
@@ -180,12 +180,20 @@ impl<T: Handler> Handler for Arc<T> {
     fn handle(&self, context: Context, response: Response) {
         (**self).handle(context, response);
     }
+
+    fn description(&self) -> Option<Cow<'static, str>> {
+        (**self).description()
+    }
 }
 
 impl Handler for Box<Handler> {
     fn handle(&self, context: Context, response: Response) {
         (**self).handle(context, response);
     }
+
+    fn description(&self) -> Option<Cow<'static, str>> {
+        (**self).description()
+    }
 }
 
 ///A request environment, containing the context, response and route state.
-- 
2.43.0


From ced61bf283941e47dd1265856cf23acbf432d718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:21 +0000
Subject: [PATCH 19/28] fix: video files are not images

---
 build/mime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/mime.rs b/build/mime.rs
index 0f9b1fb..e48cdb0 100644
--- a/build/mime.rs
+++ b/build/mime.rs
@@ -37,7 +37,7 @@ pub fn gen() {
             "text" => "MaybeKnown::Known(::mime::TopLevel::Text)".into(),
             "image" => "MaybeKnown::Known(::mime::TopLevel::Image)".into(),
             "audio" => "MaybeKnown::Known(::mime::TopLevel::Audio)".into(),
-            "video" => "MaybeKnown::Known(::mime::TopLevel::Image)".into(),
+            "video" => "MaybeKnown::Known(::mime::TopLevel::Video)".into(),
             "application" => "MaybeKnown::Known(::mime::TopLevel::Application)".into(),
             "multipart" => "MaybeKnown::Known(::mime::TopLevel::Multipart)".into(),
             "message" => "MaybeKnown::Known(::mime::TopLevel::Message)".into(),
-- 
2.43.0


From 494a1a31f79f567ee70fabf1650a4c77957b0126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:16 +0000
Subject: [PATCH 20/28] fix: data from begin passes all later filters after a
 silent abort

---
 src/response.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 279de52..69ce8b9 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1148,11 +1148,14 @@ fn filter_headers<'a>(
 
     for filter in filters {
         header_result = match header_result {
-            (_, Action::SilentAbort) | (_, Action::Abort(_)) => break,
+            (_, Action::Abort(_)) => break,
             (status, r) => {
-                write_queue.push(r);
+                let filter_res = if let Action::SilentAbort = r {
+                    //Only the already written data continues
+                    (status, r)
+                } else {
+                    write_queue.push(r);
 
-                let filter_res = {
                     let filter_context = FilterContext {
                         storage: filter_storage,
                         global: global,
-- 
2.43.0


From d44bb3a3dcc1862302d9d787c3f1f68f8ca73a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:10 +0000
Subject: [PATCH 21/28] fix: apply contexts without variable names to every
 node of a tree router

---
 src/handler/tree_router.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handler/tree_router.rs b/src/handler/tree_router.rs
index a1f66a3..7db9e9c 100644
--- a/src/handler/tree_router.rs
+++ b/src/handler/tree_router.rs
@@ -356,9 +356,10 @@ impl<T: ApplyContext> ApplyContext for TreeRouter<T> {
             self.item.apply_context(context.clone());
 
             context.insert(VariableNames(variables));
+        } else {
+            self.item.apply_context(context.clone());
         }
 
-
         for (_, mut node) in &mut self.static_routes {
             node.apply_context(context.clone());
         }
-- 
2.43.0


From 5aefd2110e7aa54841182f86c1c0de2d8b324dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:38 +0000
Subject: [PATCH 22/28] fix: compare strings with MaybeUtf8 in the right order

---
 src/context/maybe_utf8.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/context/maybe_utf8.rs b/src/context/maybe_utf8.rs
index 3b387b5..049de8b 100644
--- a/src/context/maybe_utf8.rs
+++ b/src/context/maybe_utf8.rs
@@ -313,7 +313,7 @@ impl<S, V> PartialOrd<MaybeUtf8<S, V>> for str where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -322,7 +322,7 @@ impl<'a, S, V> PartialOrd<MaybeUtf8<S, V>> for &'a str where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -331,7 +331,7 @@ impl<S, V> PartialOrd<MaybeUtf8<S, V>> for String where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -340,7 +340,7 @@ impl<'a, S, V> PartialOrd<MaybeUtf8<S, V>> for Cow<'a, str> where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self.as_ref())
+        other.partial_cmp(self.as_ref()).map(Ordering::reverse)
     }
 }
 
@@ -349,7 +349,7 @@ impl<S, V> PartialOrd<MaybeUtf8<S, V>> for [u8] where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -358,7 +358,7 @@ impl<'a, S, V> PartialOrd<MaybeUtf8<S, V>> for &'a [u8] where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
@@ -367,7 +367,7 @@ impl<S, V> PartialOrd<MaybeUtf8<S, V>> for Vec<u8> where
     V: AsRef<[u8]>
 {
     fn partial_cmp(&self, other: &MaybeUtf8<S, V>) -> Option<Ordering> {
-        other.partial_cmp(self)
+        other.partial_cmp(self).map(Ordering::reverse)
     }
 }
 
-- 
2.43.0


From 147134b4b0b09e097d0440a3984289d4d75ee1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:42 +0000
Subject: [PATCH 23/28] fix: do not treat bytes that are not UTF-8 as a String

---
 src/context/maybe_utf8.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/context/maybe_utf8.rs b/src/context/maybe_utf8.rs
index 049de8b..5418d15 100644
--- a/src/context/maybe_utf8.rs
+++ b/src/context/maybe_utf8.rs
@@ -118,9 +118,7 @@ impl MaybeUtf8<String, Vec<u8>> {
         match *self {
             MaybeUtf8::Utf8(ref mut s) => s.push(c),
             MaybeUtf8::NotUtf8(ref mut v) => {
-                //Do some witchcraft until encode_utf8 becomes a thing.
-                let string: &mut String = unsafe { ::std::mem::transmute(v) };
-                string.push(c);
+                v.push_bytes(c.encode_utf8(&mut [0; 4]).as_bytes())
             }
         }
     }
@@ -462,9 +460,7 @@ impl<'a> Buffer<'a> {
     ///assert_eq!("å1€", string);
     ///```
     pub fn push_char(&mut self, c: char) {
-        //Do some witchcraft until encode_utf8 becomes a thing.
-        let string: &mut String = unsafe { ::std::mem::transmute(&mut self.bytes) };
-        string.push(c);
+        self.bytes.push_bytes(c.encode_utf8(&mut [0; 4]).as_bytes())
     }
 }
 
-- 
2.43.0


From bde3f228ae6b8e18f28bbe7e20579fb469cbe5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:07 +0000
Subject: [PATCH 24/28] fix: report errors from ending a file response

---
 src/response.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/response.rs b/src/response.rs
index 69ce8b9..481fca2 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -372,7 +372,7 @@ impl<'a, 'b> SendResponse<'a, 'b> for File {
         };
 
         let mut writer = unsafe { response.into_raw(metadata.len()) };
-        io::copy(&mut self, &mut writer).map_err(FileError::Send).map(|_| ())
+        io::copy(&mut self, &mut writer).and_then(|_| writer.end()).map_err(FileError::Send)
     }
 }
 
-- 
2.43.0


From 884e52b5bacccdc4f6f2665192bcb4691bcb8a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:16 +0000
Subject: [PATCH 25/28] fix: document the default content type that is actually
 used

---
 src/server/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index afc7558..2cf7315 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -62,7 +62,7 @@ pub struct Server<R> {
     ///The content of the server header. Default is `"rustful"`.
     pub server: String,
 
-    ///The default media type. Default is `text/plain, charset: UTF-8`.
+    ///The default media type. Default is `text/html, charset: UTF-8`.
     pub content_type: Mime,
 
     ///Globally accessible data.
-- 
2.43.0


From a04c1afcce7329258194764d20300ce521ecb769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:11 +0000
Subject: [PATCH 26/28] fix: offer multipart readers for every declared
 boundary

---
 src/context/body.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/context/body.rs b/src/context/body.rs
index 0fc8b7c..a00433c 100644
--- a/src/context/body.rs
+++ b/src/context/body.rs
@@ -26,17 +26,13 @@ impl<'a, 'b> BodyReader<'a, 'b> {
     ///Internal and may change without warning.
     pub fn from_reader(reader: HttpReader<&'a mut BufReader<&'b mut NetworkStream>>, headers: &Headers) -> BodyReader<'a, 'b> {
         use header::ContentType;
-        use mime::{Mime, TopLevel, SubLevel, Attr, Value};
+        use mime::{Mime, TopLevel, SubLevel, Attr};
 
         let boundary = match headers.get() {
             Some(&ContentType(Mime(TopLevel::Multipart, SubLevel::FormData, ref attrs))) => {
                 attrs.iter()
                     .find(|&&(ref attr, _)| attr == &Attr::Boundary)
-                    .and_then(|&(_, ref val)| if let Value::Ext(ref boundary) = *val {
-                        Some(boundary.clone())
-                    } else {
-                        None
-                    })
+                    .map(|&(_, ref val)| val.as_str().into())
             },
             _ => None
         };
@@ -60,17 +56,13 @@ impl<'a, 'b> BodyReader<'a, 'b> {
     #[cfg(feature = "multipart")]
     pub fn mock(headers: &'b Headers) -> BodyReader<'static, 'static> {
         use header::ContentType;
-        use mime::{Mime, TopLevel, SubLevel, Attr, Value};
+        use mime::{Mime, TopLevel, SubLevel, Attr};
 
         let boundary = match headers.get() {
             Some(&ContentType(Mime(TopLevel::Multipart, SubLevel::FormData, ref attrs))) => {
                 attrs.iter()
                     .find(|&&(ref attr, _)| attr == &Attr::Boundary)
-                    .and_then(|&(_, ref val)| if let Value::Ext(ref boundary) = *val {
-                        Some(boundary.clone())
-                    } else {
-                        None
-                    })
+                    .map(|&(_, ref val)| val.as_str().into())
             },
             _ => None
         };
-- 
2.43.0


From 4478b4c2bc73cf039c222d0ba54b92fa169a2298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:07 +0000
Subject: [PATCH 27/28] fix: an absolute URI without a path means the path /

A URI like foo:?a=/ has an empty path, which was passed on as it is,
while the same path in an absolute path request becomes a single slash.
---
 src/server/instance.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index d270a20..a7ed0ec 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -282,6 +282,9 @@ fn parse_fragment(path: &str) -> (&str, Option<&str>) {
 fn parse_url(url: &Url) -> ParsedUri {
     let mut path = vec![];
     path.extend(percent_decode(url.path().as_bytes()));
+    if path.is_empty() {
+        path.push(b'/');
+    }
 
     let query = url.query()
         .map(|query| utils::parse_parameters(query.as_bytes()))
-- 
2.43.0


From 925aa856fd80333bbf6d9a7910e8515e09a3565b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:50 +0000
Subject: [PATCH 28/28] fix: a connection whose handler panics is counted as
 busy forever

---
 src/server/instance.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/server/instance.rs b/src/server/instance.rs
index a7ed0ec..1898672 100644
--- a/src/server/instance.rs
+++ b/src/server/instance.rs
@@ -1,5 +1,6 @@
 use std::net::SocketAddr;
 use std::sync::atomic::{AtomicUsize, Ordering};
+use std::thread;
 
 use time;
 
@@ -127,6 +128,17 @@ impl<R: HandleRequest + 'static> ServerInstance<R> {
 
 }
 
+//Hyper doesn't tell when a connection ends because its thread panics.
+struct EndOnPanic<'a>(&'a AtomicUsize);
+
+impl<'a> Drop for EndOnPanic<'a> {
+    fn drop(&mut self) {
+        if thread::panicking() {
+            self.0.fetch_sub(1, Ordering::SeqCst);
+        }
+    }
+}
+
 struct ParsedUri {
     host: Option<(String, Option<u16>)>,
     uri_path: UriPath,
@@ -136,6 +148,8 @@ struct ParsedUri {
 
 impl<R: HandleRequest + 'static> HyperHandler for ServerInstance<R> {
     fn handle<'a, 'b>(&'a self, request: hyper::server::request::Request<'a, 'b>, writer: hyper::server::response::Response<'a>) {
+        let _end_on_panic = EndOnPanic(&self.threads_in_use);
+
         let (
             request_addr,
             request_method,
-- 
2.43.0

