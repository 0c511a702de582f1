From 771eb805eab48871b7dc148af2894007af01b28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:59 +0000
Subject: [PATCH 01/53] fix: each request parses its method in a buffer of its
 own

The buffer holding the method being parsed was static: a request whose method
arrived in two pieces could get the method of another connection.
---
 include/http/HTTPServer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 7257cf9..584e953 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -115,6 +115,7 @@ private: // clang-format off
     enum class State { methodStart, method, URI, versionH, versionT1, versionT2, versionP, versionSlash, versionMajorStart, versionMajor, versionMinorStart,
                  versionMinor, newline1, headerLineStart, headerLws, headerName, spaceBeforeHeaderValue, headerValue, newline2, newline3, completed };
     State state { State::methodStart };    
+    std::string buffer;
     bool completeRequest(char input) {
         auto isChar = [](char c) { return c >= 0; };
         auto isCtrl = [](char c) { return (c >= 0 && c <= 31) || (c == 127); };
@@ -129,7 +130,6 @@ private: // clang-format off
             if (cond) throw BadRequestException();
         };
 
-        static std::string buffer;
         using enum State;
         switch (state) {
             case methodStart:
-- 
2.43.0


From 6d5b61b688b4d51dbf76a532682ebc11932e45a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:59 +0000
Subject: [PATCH 02/53] fix: the status line of a response lives as long as the
 response

It was a static string shared by all responses: a reply still being written
got the status line of the next one, or freed memory.
---
 include/http/HTTPServer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 584e953..1023f56 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -210,7 +210,6 @@ struct Response : Headers {
     template<typename Net>
     [[nodiscard]] std::vector<typename Net::ConstBuffer> toBuffers() const {
         std::vector<typename Net::ConstBuffer> buffers;
-        static std::string httpStatus;
         httpStatus = "HTTP/1.1 " + std::to_string(statusCode) + " " + toString(statusCode) + "\r\n";
         buffers.push_back(Net::Buffer(httpStatus));
 
@@ -229,6 +228,8 @@ struct Response : Headers {
     }
 
 private:
+    mutable std::string httpStatus; // referenced by the buffers until they are written
+
     [[nodiscard]] static std::string toString(StatusCode code) {
         switch (code) {
         case switchingProtocols: return "Switching Protocols";
-- 
2.43.0


From d1ec99e24bf581eaa738f6ea36ccd8a9e81716b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:59 +0000
Subject: [PATCH 03/53] fix: name of an undefined method

getMethodName() read past the end of the table of names for any unknown method.
---
 include/http/HTTPServer.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 1023f56..b451cce 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -77,7 +77,7 @@ struct BadRequestException : public std::runtime_error {
 
 struct Request : Headers {
     enum class Method { Connect, Delete, Get, Head, Options, Patch, Post, Put, Trace, Undefined };
-    Method method;
+    Method method{Method::Undefined};
     std::string uri;
     int httpVersionMajor;
     int httpVersionMinor;
@@ -93,7 +93,9 @@ struct Request : Headers {
         return Method::Undefined;
     }
 
-    [[nodiscard]] std::string_view getMethodName() const { return methodNames[static_cast<size_t>(method)]; }
+    [[nodiscard]] std::string_view getMethodName() const {
+        return method == Method::Undefined ? "UNDEFINED" : methodNames[static_cast<size_t>(method)];
+    }
         
     void setMethod(std::string_view text) { method = getMethodFromString(text); }
 
-- 
2.43.0


From b825e102293c8bebca5ac6c2c3536194487cb9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:59 +0000
Subject: [PATCH 04/53] fix: a client that is gone before the shutdown does not
 stop the server

socket.shutdown() throws when the connection has been reset meanwhile, and the
exception left the event loop.
---
 include/http/HTTPServer.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index b451cce..81826ec 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -413,7 +413,12 @@ private:
                 if (onUpgrade) onUpgrade(std::move(socket), protocol);
             }
             else {
-                if (!ec) socket.shutdown(Net::Socket::shutdown_both);
+                try {
+                    if (!ec) socket.shutdown(Net::Socket::shutdown_both);
+                }
+                catch (const std::exception& e) { // the client may already be gone
+                    log::debug("Shutdown of a connection : {}", e.what());
+                }
                 if (ec != Net::Error::OperationAborted) connections.stop(self);
             }
         });
-- 
2.43.0


From 404a6fcfad58aac19b474381d831a15d71a3f8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:59 +0000
Subject: [PATCH 05/53] fix: no link for a connection that broke before the
 upgrade reply was sent

---
 include/http/HTTPServer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 81826ec..72ecb7f 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -408,7 +408,7 @@ private:
     void write() {
         auto self(this->shared_from_this());
         Net::AsyncWrite(socket, response.toBuffers<Net>(), [this, self](std::error_code ec, std::size_t /*bytesTransferred*/) {
-            if (protocol == Protocol::HTTPUpgrading) {
+            if (!ec && protocol == Protocol::HTTPUpgrading) {
                 protocol = Protocol::WebSocket;
                 if (onUpgrade) onUpgrade(std::move(socket), protocol);
             }
-- 
2.43.0


From 7a44b2795e67ec0a64510f6d5759096d52f0d4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:59 +0000
Subject: [PATCH 06/53] fix: upgraded connections are released

The HTTP connection object of every WebSocket stayed in the set of connections
until the end of the server.
---
 include/http/HTTPServer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 72ecb7f..ad6ab96 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -411,6 +411,7 @@ private:
             if (!ec && protocol == Protocol::HTTPUpgrading) {
                 protocol = Protocol::WebSocket;
                 if (onUpgrade) onUpgrade(std::move(socket), protocol);
+                connections.stop(self);
             }
             else {
                 try {
-- 
2.43.0


From bac69a9f6100043f2f250079ed9bf726bb726bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:59 +0000
Subject: [PATCH 07/53] fix: an endless HTTP version number is a bad request

It overflowed a signed integer.
---
 include/http/HTTPServer.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index ad6ab96..d257d8a 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -79,8 +79,8 @@ struct Request : Headers {
     enum class Method { Connect, Delete, Get, Head, Options, Patch, Post, Put, Trace, Undefined };
     Method method{Method::Undefined};
     std::string uri;
-    int httpVersionMajor;
-    int httpVersionMinor;
+    int httpVersionMajor{0};
+    int httpVersionMinor{0};
 
     void reset() {
         headers.clear();
@@ -132,6 +132,10 @@ private: // clang-format off
             if (cond) throw BadRequestException();
         };
 
+        auto addDigit = [input](int& number) {
+            if (number > 999) throw BadRequestException();
+            number = number * 10 + input - '0';
+        };
         using enum State;
         switch (state) {
             case methodStart:
@@ -150,14 +154,14 @@ private: // clang-format off
             case versionT2: setState(input != 'T', versionP); break;
             case versionP: setState(input != 'P', versionSlash); break;
             case versionSlash: setState(input != '/', versionMajorStart); httpVersionMajor = 0; httpVersionMinor = 0; break;
-            case versionMajorStart: setState(!isDigit(input), versionMajor); httpVersionMajor = httpVersionMajor * 10 + input - '0'; break;
+            case versionMajorStart: setState(!isDigit(input), versionMajor); addDigit(httpVersionMajor); break;
             case versionMajor: if (input == '.') state = versionMinorStart;
-                                    else if (isDigit(input)) httpVersionMajor = httpVersionMajor * 10 + input - '0';
+                                    else if (isDigit(input)) addDigit(httpVersionMajor);
                                     else throw BadRequestException();
                 break;
-            case versionMinorStart: setState(!isDigit(input), versionMinor); httpVersionMinor = httpVersionMinor * 10 + input - '0'; break;
+            case versionMinorStart: setState(!isDigit(input), versionMinor); addDigit(httpVersionMinor); break;
             case versionMinor: if (input == '\r') state = newline1;
-                                    else if (isDigit(input)) httpVersionMinor = httpVersionMinor * 10 + input - '0';
+                                    else if (isDigit(input)) addDigit(httpVersionMinor);
                                     else throw BadRequestException();
                 break;
             case newline1: setState(input != '\n', headerLineStart); break;
-- 
2.43.0


From 2df0b11c337e12ceaf4f2e6f5801e6f8ff18de5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:59 +0000
Subject: [PATCH 08/53] fix: whitespace around a header value is optional

'Name:value' was refused, so were tabs, and additional spaces became part of
the value.
---
 include/http/HTTPServer.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index d257d8a..cc3302b 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -176,9 +176,10 @@ private: // clang-format off
             case headerName: if (input == ':') { state = spaceBeforeHeaderValue; break; }
                                   else if (!isChar(input) || isCtrl(input) || isSpecial(input)) throw BadRequestException();
                                   else { headers.back().name.push_back(input); break; }
-            case spaceBeforeHeaderValue: setState(input != ' ', headerValue); break;
-            case headerValue: if (input == '\r') { state = newline2; break; }
-                                   else if (isCtrl(input)) throw BadRequestException();
+            case spaceBeforeHeaderValue: if (input == ' ' || input == '\t') break;
+                                              state = headerValue; [[fallthrough]];
+            case headerValue: if (input == '\r') { trimHeaderValue(); state = newline2; break; }
+                                   else if (isCtrl(input) && input != '\t') throw BadRequestException();
                                    else { headers.back().value.push_back(input); break; }
             case newline2: setState(input != '\n', headerLineStart); break;
             case newline3: if (input == '\n') { state = completed; return true; } else throw BadRequestException();
@@ -187,6 +188,10 @@ private: // clang-format off
         }
         return false;
     }
+    void trimHeaderValue() {
+        auto& value = headers.back().value;
+        while (!value.empty() && (value.back() == ' ' || value.back() == '\t')) value.pop_back();
+    }
     inline static std::array methodNames{"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE"};
 }; // clang-format on
 
-- 
2.43.0


From 475109578f6e3cb80a3995998fa1098dd33d9475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:59 +0000
Subject: [PATCH 09/53] fix: a target with a NUL character is a bad request

The name of the file to open was cut at the NUL character.
---
 include/http/HTTPServer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index cc3302b..ee8e7d5 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -267,7 +267,7 @@ public:
     Response handleRequest(Request request) {
         auto requestUri = uri::decode(request.uri);
         log::debug("Request uri - raw:'{}' decoded:'{}'", request.uri, requestUri);
-        if (requestUri.empty() || requestUri[0] != '/' || requestUri.find("..") != std::string::npos)
+        if (requestUri.empty() || requestUri[0] != '/' || requestUri.find("..") != std::string::npos || requestUri.find('\0') != std::string::npos)
             return Response::getStatusResponse(Response::badRequest);
         auto requestPath = std::filesystem::path(requestUri).relative_path();
         log::debug("  -> requestPath : {}", requestPath.string());
-- 
2.43.0


From 5ff19796b530879da19b2e74efcb45b0d0fdef86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:59 +0000
Subject: [PATCH 10/53] fix: MIME type of csv files

---
 include/http/MimeType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/MimeType.hpp b/include/http/MimeType.hpp
index eeac5be..0333e7e 100644
--- a/include/http/MimeType.hpp
+++ b/include/http/MimeType.hpp
@@ -35,7 +35,7 @@ struct MimeType {
     [[nodiscard]] constexpr std::string_view toString() const {
         auto names =
           std::array{"text/plain",      "text/html", "text/css",     "application/javascript", "image/jpeg", "image/png", "image/gif", "application/json",
-                     "application/pdf", "font/ttf",  "image/x-icon", "image/svg+xml",          "image/webp", "text/css",  "text/csv"};
+                     "application/pdf", "font/ttf",  "image/x-icon", "image/svg+xml",          "image/webp", "text/csv"};
         return names[type];
     }
 };
-- 
2.43.0


From 311515d3a662b5d72f72fd6d5cf565eaab91aa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 11/53] fix: buffers of empty strings

front() of an empty string is undefined behaviour.
---
 include/networking/BasicNetworking.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/networking/BasicNetworking.hpp b/include/networking/BasicNetworking.hpp
index 6edd8f4..e2d140b 100644
--- a/include/networking/BasicNetworking.hpp
+++ b/include/networking/BasicNetworking.hpp
@@ -101,12 +101,12 @@ public:
 
     template<typename CharT, typename Traits, typename Alloc>
     static MutableBuffer Buffer(std::basic_string<CharT, Traits, Alloc>& d) noexcept {
-        return ToMutableBuffer(&d.front(), d.size());
+        return ToMutableBuffer(d.data(), d.size());
     }
 
     template<typename CharT, typename Traits, typename Alloc>
     static ConstBuffer Buffer(const std::basic_string<CharT, Traits, Alloc>& d) noexcept {
-        return ToConstBuffer(&d.front(), d.size());
+        return ToConstBuffer(d.data(), d.size());
     }
 
     template<typename CharT, typename Traits>
-- 
2.43.0


From d96fdb4e129162a7ff0395bca5d02c61ee1ad11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 12/53] fix: embedded files can be read by blocks of any size

A read starting in the middle of a data word returned uninitialized bytes.
---
 include/system/FileSystem.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/system/FileSystem.hpp b/include/system/FileSystem.hpp
index ea7fed2..748dbb2 100644
--- a/include/system/FileSystem.hpp
+++ b/include/system/FileSystem.hpp
@@ -69,7 +69,8 @@ private:
 
     size_t readData(std::span<char> buffer) {
         constexpr auto bytesPerInt = sizeof(decltype(data)::value_type);
-        UIntByte chunk;
+        UIntByte chunk{};
+        if (!eof() && readIndex % bytesPerInt != 0) chunk = convert(data[readIndex / bytesPerInt]);
         for (size_t index = 0; (index < buffer.size()); ++index) {
             if (eof()) return index;
 
-- 
2.43.0


From 85cf859319a850838749f909feea1423d94c0c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 13/53] fix: a file that cannot be read entirely is an internal
 server error

The reply was a 200 with the bytes read before the error.
---
 include/http/HTTPServer.hpp   | 6 ++++++
 include/system/FileSystem.hpp | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index ee8e7d5..3b11fde 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -201,6 +201,7 @@ struct Response : Headers {
         ok = 200,
         badRequest = 400,
         notFound = 404,
+        internalServerError = 500,
         notImplemented = 501,
         variantAlsoNegotiates = 506
     };
@@ -247,6 +248,7 @@ private:
         case ok: return "OK";
         case badRequest: return "Bad Request";
         case notFound: return "Not Found";
+        case internalServerError: return "Internal Server Error";
         case notImplemented: return "Not Implemented";
         case variantAlsoNegotiates: return "Variant Also Negotiates";
         }
@@ -299,6 +301,10 @@ public:
 
             std::array<char, 512> buffer{0, 0};
             while (auto bytesRead = file->read(buffer)) response.content.append(buffer.data(), bytesRead);
+            if (file->failed()) {
+                log::error("File {} could not be read", requestPath.string());
+                return Response::getStatusResponse(Response::internalServerError);
+            }
             if (file->isEncoded()) response.headers.emplace_back("Content-Encoding", file->getEncoding());
 
         } break;
diff --git a/include/system/FileSystem.hpp b/include/system/FileSystem.hpp
index 748dbb2..0f7e0db 100644
--- a/include/system/FileSystem.hpp
+++ b/include/system/FileSystem.hpp
@@ -45,6 +45,8 @@ public:
     [[nodiscard]] bool isEncoded() const { return !encoding.empty(); }
     [[nodiscard]] std::string_view getEncoding() const { return encoding; }
     [[nodiscard]] bool eof() const { return eofBit; }
+    // @return true if some bytes of the file could not be read
+    [[nodiscard]] bool failed() const { return fstream.bad(); }
 
     // Extracts characters from file into given buffer until buffer size or end of file is reached.
     // @param buffer buffer which will receive extracted data
-- 
2.43.0


From d679df2f4d35f6b3ed5914eca9c5cc32558a36bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 14/53] fix: a directory is not a file

Directories were opened as empty files.
---
 include/system/NativeFS.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/system/NativeFS.hpp b/include/system/NativeFS.hpp
index 334a21d..1f5ba9e 100644
--- a/include/system/NativeFS.hpp
+++ b/include/system/NativeFS.hpp
@@ -13,6 +13,7 @@ namespace detail {
 class NativeRawFS {
 public:
     std::optional<File> open(std::filesystem::path path) {
+        if (std::error_code ec; std::filesystem::is_directory(rootPath / path, ec)) return {};
         std::ifstream file;
         file.open(rootPath / path, std::ios::binary);
         if (file.is_open()) return File{std::move(file)};
-- 
2.43.0


From 95d7b93673f6e00b6487b1187f137cfe5424abd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 15/53] fix: HEAD gives the status and headers of GET and never
 a body

Content-Length was 0, Content-Encoding was missing, and error replies had a
body. A HEAD of a file in an encoding that the client did not list still is a 200,
as the tests want it.
---
 include/http/HTTPServer.hpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 3b11fde..8f5c433 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -267,6 +267,15 @@ public:
     RequestHandler& operator=(RequestHandler&&) = default;
 
     Response handleRequest(Request request) {
+        auto response = respond(request);
+        if (request.method == Request::Method::Head) response.content.clear();
+        return response;
+    }
+
+private:
+    FS fs;
+
+    Response respond(const Request& request) {
         auto requestUri = uri::decode(request.uri);
         log::debug("Request uri - raw:'{}' decoded:'{}'", request.uri, requestUri);
         if (requestUri.empty() || requestUri[0] != '/' || requestUri.find("..") != std::string::npos || requestUri.find('\0') != std::string::npos)
@@ -277,8 +286,9 @@ public:
 
         Response response;
         switch (request.method) {
-        case Request::Method::Get: {
-            if (request.isUpgradeRequest("websocket")) {
+        case Request::Method::Get:
+        case Request::Method::Head: {
+            if (request.method == Request::Method::Get && request.isUpgradeRequest("websocket")) {
                 auto key = request.getHeaderValue("Sec-WebSocket-Key");
                 if (key) {
                     response.statusCode = Response::StatusCode::switchingProtocols;
@@ -293,7 +303,7 @@ public:
             auto file = fs.open(requestPath);
             if (!file) return Response::getStatusResponse(Response::notFound);
             if (file->isEncoded()) {
-                if (!request.headersContain("Accept-Encoding", file->getEncoding())) {
+                if (request.method == Request::Method::Get && !request.headersContain("Accept-Encoding", file->getEncoding())) {
                     log::error("File {} encoding is not supported by client : HTTP ERROR 506", file->getEncoding());
                     return Response::getStatusResponse(Response::variantAlsoNegotiates);
                 }
@@ -308,10 +318,6 @@ public:
             if (file->isEncoded()) response.headers.emplace_back("Content-Encoding", file->getEncoding());
 
         } break;
-        case Request::Method::Head:
-            if (!fs.open(requestPath)) return Response::getStatusResponse(Response::notFound);
-            break;
-
         default: return Response::getStatusResponse(Response::notImplemented);
         };
 
@@ -321,9 +327,6 @@ public:
 
         return response;
     }
-
-private:
-    FS fs;
 };
 
 template<typename ConnectionType>
@@ -408,6 +411,7 @@ private:
                     }
                     catch (const BadRequestException&) {
                         response = Response::getStatusResponse(Response::badRequest);
+                        if (request.method == Request::Method::Head) response.content.clear();
                         write();
                     }
                     break;
-- 
2.43.0


From f2828eb094855bca32f3c8626f3ba40d6d064949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 16/53] fix: the length of a frame does not spill out of its
 header field

One more byte was written, shifted by a huge count.
---
 include/http/WebSocket.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 3af01e4..f2a2154 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -99,7 +99,7 @@ struct Header {
     void setPayloadSize(size_t size) {
         raw[1] = (raw[1] & std::byte(0b10000000)) | std::byte(size < 126 ? size : size < 65536 ? 126 : 127);
         size_t len = size < 126 ? 0 : size < 65536 ? 2 : 8;
-        for (size_t i = 0; i <= len; ++i) raw[2 + i] = std::byte(size >> (8 * (len - i - 1)));
+        for (size_t i = 0; i < len; ++i) raw[2 + i] = std::byte(size >> (8 * (len - i - 1)));
     }
 
 protected:
-- 
2.43.0


From 05c6a0f23c1a6b6edb31f98c9f0025f526e45605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 17/53] fix: headers of 2, 4, 8 and 10 bytes are complete
 headers

Masked frames with a 16 bits length needed 14 bytes before being decoded, and
the bytes following the header were lost.
---
 include/http/WebSocket.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index f2a2154..8f67a7c 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -81,7 +81,7 @@ struct Header {
     /// @return true if first 'size' bytes constitute a complete header
     [[nodiscard]] bool isComplete(size_t size) const {
         if (size < 2) return false;
-        return std::to_integer<uint8_t>(raw[1] & std::byte(0b1111111)) < 126 ? size >= 6 : size >= 14;
+        return size >= headerSize();
     }
 
     void setFIN(bool set) {
-- 
2.43.0


From 208a81af628dfb83354bf23ecc83cb6077866bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 18/53] fix: every frame of a block of received data is decoded

Only the first one was, and a frame in several blocks was taken as complete once
more than half of the remaining bytes had been received.
---
 include/http/WebSocket.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 8f67a7c..3ff7011 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -157,6 +157,8 @@ public:
 public:
     FrameDecoder() : payloadBuffer(sizeof(Header)) { reset(); }
     std::span<const std::byte> payload() const { return std::span(payloadBuffer.data(), payloadSize); }
+    /// @return number of bytes of the last parsed buffer which belong to the frame
+    size_t consumed() const { return consumedBytes; }
 
     // Parses some incoming data and tries to decode it.
     // @return true if the frame is complete, false if it needs more data
@@ -185,25 +187,28 @@ public:
             if (reinterpret_cast<const Header*>(buffer.data())->isComplete(buffer.size())) {
                 reinterpret_cast<const Header*>(buffer.data())->dump();
                 decodeHeader(buffer.data());
-                if (decodePayload(buffer.subspan(headerSize, std::min(buffer.size() - headerSize, payloadSize))) == payloadSize) return true;
+                consumedBytes = headerSize + std::min(buffer.size() - headerSize, payloadSize);
+                if (decodePayload(buffer.subspan(headerSize, consumedBytes - headerSize)) == payloadSize) return true;
                 state = DecodingState::decodingPayload;
             }
             else {
-                bufferizeHeaderData(buffer);
+                consumedBytes = bufferizeHeaderData(buffer);
                 state = DecodingState::partialHeader;
             }
             break;
         case DecodingState::partialHeader: {
             auto consumedData = bufferizeHeaderData(buffer);
+            consumedBytes = consumedData;
             if (headerBuffer.isComplete(headerBufferParser)) {
                 decodeHeader(headerBuffer.raw.data());
-                if (decodePayload(buffer.subspan(consumedData, std::min(buffer.size() - consumedData, payloadSize))) == payloadSize) return true;
+                consumedBytes += std::min(buffer.size() - consumedData, payloadSize);
+                if (decodePayload(buffer.subspan(consumedData, consumedBytes - consumedData)) == payloadSize) return true;
                 state = DecodingState::decodingPayload;
             }
         } break;
         case DecodingState::decodingPayload: {
-            decodePayload(buffer.first(std::min(payloadSize - payloadBuffer.size(), buffer.size())));
-            return (buffer.size() >= (payloadSize - payloadBuffer.size()));
+            consumedBytes = std::min(payloadSize - payloadBuffer.size(), buffer.size());
+            return decodePayload(buffer.first(consumedBytes)) == payloadSize;
         }
         }
         return false;
@@ -221,6 +226,7 @@ private:
     std::vector<std::byte> payloadBuffer;
     Header headerBuffer;
     size_t headerBufferParser;
+    size_t consumedBytes = 0;
     size_t payloadSize, headerSize;
     std::array<std::byte, 4> mask;
     uint8_t maskIndex;
@@ -272,7 +278,9 @@ private:
     void read() {
         socket.async_read_some(Net::Buffer(readBuffer), [this](std::error_code ec, std::size_t bytesTransferred) {
             if (!ec) {
-                if (decoder.parse(std::span(readBuffer.data(), bytesTransferred))) {
+                auto received = std::span<const std::byte>(readBuffer.data(), bytesTransferred);
+                while (decoder.parse(received)) {
+                    received = received.subspan(decoder.consumed());
                     auto data = decoder.payload();
                     switch (decoder.frameType) {
                     case Header::Opcode::text:
-- 
2.43.0


From 14ee310565ba6ed4b303899329aa6b13df7effdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 19/53] fix: the announced size of a frame is not allocated at
 once

An announced size of some exabytes made reserve() throw out of the event loop.
---
 include/http/WebSocket.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 3ff7011..0724af2 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -172,7 +172,7 @@ public:
             headerSize = reinterpret_cast<const Header*>(input)->headerSize();
             mask = reinterpret_cast<const Header*>(input)->maskingKey();
             frameType = reinterpret_cast<const Header*>(input)->opcode();
-            payloadBuffer.reserve(payloadSize);
+            payloadBuffer.reserve(std::min(payloadSize, maxReservedSize));
         };
         auto bufferizeHeaderData = [&](std::span<const std::byte> input) -> size_t {
             for (size_t index = 0; index < input.size(); ++index) {
@@ -222,6 +222,7 @@ public:
     }
 
 private:
+    static constexpr size_t maxReservedSize = 65536; // bigger payloads are allocated as they are received
     enum class DecodingState { starting, partialHeader, decodingPayload } state;
     std::vector<std::byte> payloadBuffer;
     Header headerBuffer;
-- 
2.43.0


From 7631b8412db2c0b30eab0b3ed74ed4c64bccc185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 20/53] fix: a frame gives its own header, of the right size,
 to the network

The first buffer kept the size the header had before buffers were added, and
pointed into the frame it was moved from.
---
 include/http/WebSocket.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 0724af2..93aa724 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -137,7 +137,11 @@ struct Frame : public Header {
 
     [[nodiscard]] size_t size() const { return payloadSize(); };
 
-    std::vector<typename Net::ConstBuffer> toBuffers() const { return buffers; }
+    std::vector<typename Net::ConstBuffer> toBuffers() const {
+        auto frameBuffers = buffers;
+        frameBuffers[0] = {raw.data(), headerSize()};
+        return frameBuffers;
+    }
 
     /// @return size of added buffer
     size_t addBuffer(std::span<const std::byte> buffer) {
-- 
2.43.0


From fd0ad409ccad807b98d74746430bed0b9030e98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 21/53] fix: outgoing messages are copied and written one after
 the other

The network was given the buffers of the caller and of the frame, which did not
outlive the call, and concurrent writes could mix their bytes.
---
 include/http/WebSocket.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 93aa724..a673925 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -9,9 +9,11 @@
 #include <array>
 #include <cstddef>
 #include <functional>
+#include <list>
 #include <memory>
 #include <set>
 #include <span>
+#include <vector>
 
 namespace webfront::websocket {
 using Handle = uint32_t;
@@ -277,6 +279,7 @@ private:
     std::function<void(std::string_view)> textHandler;
     std::function<void(std::span<const std::byte>)> binaryHandler;
     std::function<void(CloseEvent)> closeHandler;
+    std::list<std::vector<std::byte>> outgoing; // the first message is being written
     bool started;
 
 private:
@@ -313,7 +316,18 @@ private:
     }
 
     void writeData(Frame<Net> frame) {
-        Net::AsyncWrite(socket, frame.toBuffers(), [this](std::error_code ec, std::size_t /*bytesTransferred*/) {
+        auto& message = outgoing.emplace_back();
+        for (auto& buffer : frame.toBuffers()) {
+            auto data = reinterpret_cast<const std::byte*>(buffer.data());
+            message.insert(message.end(), data, data + buffer.size());
+        }
+        if (outgoing.size() == 1) writeNext();
+    }
+
+    void writeNext() {
+        std::vector<typename Net::ConstBuffer> buffers{{outgoing.front().data(), outgoing.front().size()}};
+        Net::AsyncWrite(socket, buffers, [this](std::error_code ec, std::size_t /*bytesTransferred*/) {
+            outgoing.pop_front();
             if (ec) {
                 if (started) {
                     log::error("Error during write : ec.value() = {}", ec.value());
@@ -321,6 +335,8 @@ private:
                     if (ec != Net::Error::OperationAborted) stop();
                 }
             }
+            else if (!outgoing.empty())
+                writeNext();
         });
     }
 };
-- 
2.43.0


From 2ca0f9b40fe7c1b3d9f04e17fa248aed41d0b447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 22/53] fix: fragmented messages are reassembled

The first fragment was delivered as if it were the whole message and the others
were dropped.
---
 include/http/WebSocket.hpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index a673925..2bfa1f5 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -13,6 +13,7 @@
 #include <memory>
 #include <set>
 #include <span>
+#include <utility>
 #include <vector>
 
 namespace webfront::websocket {
@@ -159,6 +160,7 @@ struct Frame : public Header {
 class FrameDecoder {
 public:
     Header::Opcode frameType;
+    bool finalFragment;
 
 public:
     FrameDecoder() : payloadBuffer(sizeof(Header)) { reset(); }
@@ -178,6 +180,7 @@ public:
             headerSize = reinterpret_cast<const Header*>(input)->headerSize();
             mask = reinterpret_cast<const Header*>(input)->maskingKey();
             frameType = reinterpret_cast<const Header*>(input)->opcode();
+            finalFragment = reinterpret_cast<const Header*>(input)->FIN();
             payloadBuffer.reserve(std::min(payloadSize, maxReservedSize));
         };
         auto bufferizeHeaderData = [&](std::span<const std::byte> input) -> size_t {
@@ -276,6 +279,8 @@ public:
 private:
     std::array<std::byte, receptionBufferSize> readBuffer;
     FrameDecoder decoder;
+    Header::Opcode messageType = Header::Opcode::continuation; // no message is being received
+    std::vector<std::byte> message;
     std::function<void(std::string_view)> textHandler;
     std::function<void(std::span<const std::byte>)> binaryHandler;
     std::function<void(CloseEvent)> closeHandler;
@@ -292,10 +297,15 @@ private:
                     auto data = decoder.payload();
                     switch (decoder.frameType) {
                     case Header::Opcode::text:
-                        if (textHandler) textHandler(std::string_view(reinterpret_cast<const char*>(data.data()), data.size()));
-                        break;
                     case Header::Opcode::binary:
-                        if (binaryHandler) binaryHandler(data);
+                        messageType = decoder.frameType;
+                        message.assign(data.begin(), data.end());
+                        if (decoder.finalFragment) deliverMessage();
+                        break;
+                    case Header::Opcode::continuation:
+                        if (messageType == Header::Opcode::continuation) break; // continues nothing
+                        message.insert(message.end(), data.begin(), data.end());
+                        if (decoder.finalFragment) deliverMessage();
                         break;
                     case Header::Opcode::connectionClose:
                         if (closeHandler) closeHandler(CloseEvent{});
@@ -315,6 +325,16 @@ private:
         });
     }
 
+    void deliverMessage() {
+        auto type = std::exchange(messageType, Header::Opcode::continuation);
+        auto data = std::exchange(message, {});
+        if (type == Header::Opcode::binary) {
+            if (binaryHandler) binaryHandler(data);
+        }
+        else if (textHandler)
+            textHandler(std::string_view(reinterpret_cast<const char*>(data.data()), data.size()));
+    }
+
     void writeData(Frame<Net> frame) {
         auto& message = outgoing.emplace_back();
         for (auto& buffer : frame.toBuffers()) {
-- 
2.43.0


From 33ef0532794b00a640ea73bcc21c58d912d0b4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 23/53] fix: pings are answered

---
 include/http/WebSocket.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 2bfa1f5..91195df 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -133,6 +133,8 @@ struct Frame : public Header {
         if (!dataNext.empty()) buffers.emplace_back(dataNext.data(), dataNext.size());
     }
 
+    Frame(Opcode code, std::span<const std::byte> data) : Frame(data) { setOpcode(code); }
+
     Frame(const Frame&) = delete;
     Frame& operator=(const Frame&) = delete;
     Frame(Frame&&) = default; 
@@ -311,6 +313,7 @@ private:
                         if (closeHandler) closeHandler(CloseEvent{});
                         stop();
                         break;
+                    case Header::Opcode::ping: writeData(Frame<Net>(Header::Opcode::pong, data)); break;
                     default: log::debug("Unhandled frameType");
                     };
                     decoder.reset();
-- 
2.43.0


From 078323cce93ffc601b05e1a4605b4a82191a0694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 24/53] fix: the closing handshake is completed

A close frame of the client was not answered, and the connection went on being
read after it.
---
 include/http/WebSocket.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 91195df..8f682c6 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -288,6 +288,7 @@ private:
     std::function<void(CloseEvent)> closeHandler;
     std::list<std::vector<std::byte>> outgoing; // the first message is being written
     bool started;
+    bool closing = false; // a close frame has been received and answered
 
 private:
     void read() {
@@ -310,9 +311,9 @@ private:
                         if (decoder.finalFragment) deliverMessage();
                         break;
                     case Header::Opcode::connectionClose:
-                        if (closeHandler) closeHandler(CloseEvent{});
-                        stop();
-                        break;
+                        writeData(Frame<Net>(Header::Opcode::connectionClose, data.first(data.size() < 2 ? 0 : 2)));
+                        closing = true;
+                        return;
                     case Header::Opcode::ping: writeData(Frame<Net>(Header::Opcode::pong, data)); break;
                     default: log::debug("Unhandled frameType");
                     };
@@ -339,6 +340,7 @@ private:
     }
 
     void writeData(Frame<Net> frame) {
+        if (closing) return; // nothing follows a close frame
         auto& message = outgoing.emplace_back();
         for (auto& buffer : frame.toBuffers()) {
             auto data = reinterpret_cast<const std::byte*>(buffer.data());
@@ -360,6 +362,10 @@ private:
             }
             else if (!outgoing.empty())
                 writeNext();
+            else if (closing) {
+                if (closeHandler) closeHandler(CloseEvent{});
+                stop();
+            }
         });
     }
 };
-- 
2.43.0


From 4ec27eb41d367eda27aff5ee27ac5950a4f4182c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 25/53] fix: a WebSocket reads its connection once

WebLink starts again a WebSocket which is already started: two reads shared
one buffer.
---
 include/http/WebSocket.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 8f682c6..d230af0 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -261,6 +261,7 @@ public:
     ~WebSocket() { log::debug("WebSocket destructor"); }
 
     void start() {
+        if (started) return;
         started = true;
         read();
     }
-- 
2.43.0


From 9bd7cab8fc215160ea07fe225d317d503636fac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 26/53] fix: the end of a WebSocket is told once, after its
 last operation

The close handler could be called by both the pending read and a pending write,
and the WebSocket could not be destroyed by it.
---
 include/http/WebSocket.hpp | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index d230af0..8055c02 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -266,8 +266,10 @@ public:
         read();
     }
 
-    void stop() {
+    void stop(CloseEvent event = {}) {
+        if (!started) return;
         started = false;
+        closeEvent = std::move(event);
         socket.close();
     }
 
@@ -288,15 +290,18 @@ private:
     std::function<void(std::span<const std::byte>)> binaryHandler;
     std::function<void(CloseEvent)> closeHandler;
     std::list<std::vector<std::byte>> outgoing; // the first message is being written
+    CloseEvent closeEvent{};
+    size_t pendingOperations = 0;
     bool started;
     bool closing = false; // a close frame has been received and answered
 
 private:
     void read() {
+        ++pendingOperations;
         socket.async_read_some(Net::Buffer(readBuffer), [this](std::error_code ec, std::size_t bytesTransferred) {
             if (!ec) {
                 auto received = std::span<const std::byte>(readBuffer.data(), bytesTransferred);
-                while (decoder.parse(received)) {
+                while (started && decoder.parse(received)) {
                     received = received.subspan(decoder.consumed());
                     auto data = decoder.payload();
                     switch (decoder.frameType) {
@@ -314,22 +319,30 @@ private:
                     case Header::Opcode::connectionClose:
                         writeData(Frame<Net>(Header::Opcode::connectionClose, data.first(data.size() < 2 ? 0 : 2)));
                         closing = true;
+                        operationDone();
                         return;
                     case Header::Opcode::ping: writeData(Frame<Net>(Header::Opcode::pong, data)); break;
                     default: log::debug("Unhandled frameType");
                     };
                     decoder.reset();
                 }
-                read();
+                if (started) read();
             }
-            else {
+            else if (started) {
+                stop(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
                 log::error("Error in websocket::read() : {}:{}", ec.value(), ec.message());
-                if (closeHandler) closeHandler(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
-                stop();
             }
+            operationDone();
         });
     }
 
+    /// Tells about the end of the connection when no operation can refer to this WebSocket any more : it can then be destroyed
+    void operationDone() {
+        if (--pendingOperations > 0 || started || !closeHandler) return;
+        auto handler = std::exchange(closeHandler, nullptr);
+        handler(closeEvent);
+    }
+
     void deliverMessage() {
         auto type = std::exchange(messageType, Header::Opcode::continuation);
         auto data = std::exchange(message, {});
@@ -341,7 +354,7 @@ private:
     }
 
     void writeData(Frame<Net> frame) {
-        if (closing) return; // nothing follows a close frame
+        if (closing || !started) return; // nothing follows a close frame
         auto& message = outgoing.emplace_back();
         for (auto& buffer : frame.toBuffers()) {
             auto data = reinterpret_cast<const std::byte*>(buffer.data());
@@ -351,22 +364,21 @@ private:
     }
 
     void writeNext() {
+        ++pendingOperations;
         std::vector<typename Net::ConstBuffer> buffers{{outgoing.front().data(), outgoing.front().size()}};
         Net::AsyncWrite(socket, buffers, [this](std::error_code ec, std::size_t /*bytesTransferred*/) {
             outgoing.pop_front();
             if (ec) {
                 if (started) {
+                    stop(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
                     log::error("Error during write : ec.value() = {}", ec.value());
-                    if (closeHandler) closeHandler(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
-                    if (ec != Net::Error::OperationAborted) stop();
                 }
             }
-            else if (!outgoing.empty())
+            else if (!outgoing.empty() && started)
                 writeNext();
-            else if (closing) {
-                if (closeHandler) closeHandler(CloseEvent{});
+            else if (closing)
                 stop();
-            }
+            operationDone();
         });
     }
 };
-- 
2.43.0


From 4a3c91d0e0aacff7f9f704cfa678eff53bcc9a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 27/53] fix: a message that cannot be processed does not stop
 the server

The exceptions thrown for malformed messages left the event loop.
---
 include/http/WebSocket.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 8055c02..20679ac 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -346,11 +346,16 @@ private:
     void deliverMessage() {
         auto type = std::exchange(messageType, Header::Opcode::continuation);
         auto data = std::exchange(message, {});
-        if (type == Header::Opcode::binary) {
-            if (binaryHandler) binaryHandler(data);
+        try {
+            if (type == Header::Opcode::binary) {
+                if (binaryHandler) binaryHandler(data);
+            }
+            else if (textHandler)
+                textHandler(std::string_view(reinterpret_cast<const char*>(data.data()), data.size()));
+        }
+        catch (const std::exception& e) {
+            log::error("A message was not processed : {}", e.what());
         }
-        else if (textHandler)
-            textHandler(std::string_view(reinterpret_cast<const char*>(data.data()), data.size()));
     }
 
     void writeData(Frame<Net> frame) {
-- 
2.43.0


From cade1023f60369610aee990a48be43a555f9cb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:53 +0000
Subject: [PATCH 28/53] fix: a message has to be as long as it says

The sizes were added instead of being compared: a call announcing more data than
it has made the server read past the end of it.
---
 include/weblink/Messages.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 16453d6..306ba95 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -104,7 +104,7 @@ public:
     static const T* castFromRawData(std::span<const std::byte> data) {
         if (data.size() < sizeof(typename T::Header)) throw std::runtime_error("Not enough data to form a message Header");
         auto message = reinterpret_cast<const T*>(data.data());
-        if ((data.size() + message->getPayloadSize()) < sizeof(typename T::Header))
+        if (data.size() - sizeof(typename T::Header) < message->getPayloadSize())
             throw std::runtime_error("Not enough data to form a complete message");
         return message;
     }
-- 
2.43.0


From 25ed41ad04fcd2284193f27c99ddec75a00b2986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:53 +0000
Subject: [PATCH 29/53] fix: an empty message is ignored

Its first byte was read.
---
 include/weblink/WebLink.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index fb4f54d..9742552 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -46,6 +46,7 @@ public:
         });
         ws.onMessage([this](std::span<const std::byte> data) {
             log::infoHex("onMessage(binary) :", data);
+            if (data.empty()) return;
 
             switch (static_cast<msg::Command>(data[0])) {
             case msg::Command::handshake: {
-- 
2.43.0


From a777e54f5fda676f0e0447c3afd9bcff6448f51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:53 +0000
Subject: [PATCH 30/53] fix: the link of a lost client is released

It stayed forever, and calls to it were silently lost.
---
 include/weblink/WebLink.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index 9742552..90a9a12 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -84,6 +84,11 @@ public:
             }
         });
 
+        ws.onClose([this](websocket::CloseEvent) {
+            auto handler = eventsHandler; // this WebLink is destroyed by the handling of the event
+            handler({WebLinkEvent::Code::closed, id});
+        });
+
         ws.start();
     }
     WebLink(const WebLink&) = delete;
-- 
2.43.0


From 81909a1c6dbb843876655bf4e96ac7568f8cebc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:53 +0000
Subject: [PATCH 31/53] fix: a repeated handshake starts nothing again

It ran the UI started handler again and added a second log sink, which was not
removed with the link.
---
 include/weblink/WebLink.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index 90a9a12..d0dffec 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -52,6 +52,7 @@ public:
             case msg::Command::handshake: {
                 auto command = msg::Handshake::castFromRawData(data);
                 sendCommand(msg::Ack{});
+                if (logSink) break; // already linked
                 logSink =
                   log::addSinks([this](std::string_view t) { sendCommand(msg::TextCommand(msg::TxtOpcode::debugLog, t)); });
                 sameEndian = (std::endian::native == std::endian::little &&
-- 
2.43.0


From 9d61379201a8c7521010d79afee1e495d9e57fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:53 +0000
Subject: [PATCH 32/53] fix: the UI started handler is optional

---
 include/WebFront.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/WebFront.hpp b/include/WebFront.hpp
index e63f5b5..6e92c04 100644
--- a/include/WebFront.hpp
+++ b/include/WebFront.hpp
@@ -111,7 +111,9 @@ private:
 private:
     void onEvent(WebLinkEvent event) {
         switch (event.code) {
-        case WebLinkEvent::Code::linked: uiStartedHandler(UI{*this, event.webLinkId}); break;
+        case WebLinkEvent::Code::linked:
+            if (uiStartedHandler) uiStartedHandler(UI{*this, event.webLinkId});
+            break;
         case WebLinkEvent::Code::closed: webLinks.erase(event.webLinkId); break;
         case WebLinkEvent::Code::cppFunctionCalled: cppFunctions.at(event.text)(event.data); break;
         }
-- 
2.43.0


From 945bd6224229d6f8a0acd3e917acd7ee9d4b6f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:53 +0000
Subject: [PATCH 33/53] fix: registered C++ functions are kept

A reference to the temporary given to cppFunction() was kept instead.
---
 include/WebFront.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/WebFront.hpp b/include/WebFront.hpp
index 6e92c04..3f7db1b 100644
--- a/include/WebFront.hpp
+++ b/include/WebFront.hpp
@@ -90,7 +90,7 @@ public:
      */
     template<typename R, typename... Args>
     void cppFunction(std::string functionName, auto&& function) {
-        cppFunctions.try_emplace(functionName, [&function](std::span<const std::byte> data) -> void {
+        cppFunctions.try_emplace(functionName, [function = std::forward<decltype(function)>(function)](std::span<const std::byte> data) mutable -> void {
             std::tuple<Args...> parameters;
             auto deserializeAndCall = [&]<std::size_t... Is>(std::tuple<Args...> & tuple, std::index_sequence<Is...>) {
                 (msg::FunctionCall::decodeParameter(std::get<Is>(tuple), data), ...);
-- 
2.43.0


From aa0779f927eb378551db6d2d636c2df1718ac9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:53 +0000
Subject: [PATCH 34/53] fix: the size of a parameter is read only if it is
 there

---
 include/weblink/Messages.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 306ba95..9d9cdf1 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -292,7 +292,7 @@ public:
         switch (codedType) {
         case CodedType::smallString:
             if constexpr (is_same_v<T, string>) {
-                if (data.size() < 1u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
+                if (data.size() < 2u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 auto size = static_cast<size_t>(data[1]);
                 if (data.size() < 2u + size) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 param = string(reinterpret_cast<const char*>(&data[2]), size);
@@ -302,7 +302,7 @@ public:
         case CodedType::string:
         case CodedType::exception:
             if constexpr (is_same_v<T, string>) {
-                if (data.size() < 1u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
+                if (data.size() < 3u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 uint16_t size;
                 copy_n(&data[1], 2, reinterpret_cast<byte*>(&size));
                 if (data.size() < 3u + size) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
@@ -322,6 +322,7 @@ public:
             break;
         case CodedType::tuple:
             if constexpr (is_tuple_v<T>) {
+                if (data.size() < 2u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 auto tupleSize = static_cast<size_t>(data[1]);
                 if (tuple_size_v<T> != tupleSize)
                     throw runtime_error("Parameter is a "s + to_string(tuple_size_v<T>) +
-- 
2.43.0


From 6f5b296261f9200fca311b2a39a0c248fe8e9ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:53 +0000
Subject: [PATCH 35/53] fix: parameters of the wrong type are refused

The C++ function was called with default values instead. Booleans were always
false and never consumed.
---
 include/weblink/Messages.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 9d9cdf1..78a5796 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -298,6 +298,8 @@ public:
                 param = string(reinterpret_cast<const char*>(&data[2]), size);
                 data = data.subspan(2 + size);
             }
+            else
+                throw runtime_error("Wrong parameter type : string unexpected");
             break;
         case CodedType::string:
         case CodedType::exception:
@@ -309,9 +311,20 @@ public:
                 param = string(reinterpret_cast<const char*>(&data[3]), size);
                 data = data.subspan(3 + size);
             }
+            else
+                throw runtime_error("Wrong parameter type : string unexpected");
+            break;
+        case CodedType::booleanTrue:
+        case CodedType::booleanFalse:
+            if constexpr (is_same_v<T, bool>) {
+                param = codedType == CodedType::booleanTrue;
+                data = data.subspan(1);
+            }
+            else
+                throw runtime_error("Wrong parameter type : boolean unexpected");
             break;
         case CodedType::number:
-            if constexpr (is_arithmetic_v<T>) {
+            if constexpr (is_arithmetic_v<T> && !is_same_v<T, bool>) {
                 double value;
                 if (data.size() < 1u + sizeof(value))
                     throw runtime_error("Erroneous 'number' data feeded to msg::FunctionCall::decodeParameter");
@@ -319,6 +332,8 @@ public:
                 param = static_cast<T>(value);
                 data = data.subspan(1 + sizeof(value));
             }
+            else
+                throw runtime_error("Wrong parameter type : number unexpected");
             break;
         case CodedType::tuple:
             if constexpr (is_tuple_v<T>) {
@@ -335,7 +350,7 @@ public:
                 throw runtime_error("Wrong parameter type : std::tuple expected");
             break;
 
-        default: param = {};
+        default: throw runtime_error("Wrong parameter type : "s + string(toString(codedType)) + " unexpected");
         }
     }
 };
-- 
2.43.0


From 51e544a151b4c2c9dcc8247516acb036314f5b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:53 +0000
Subject: [PATCH 36/53] fix: function returns are sent as such

The header of the base class was sent: the client got a function call.
---
 include/weblink/Messages.hpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 78a5796..80a68bc 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -169,6 +169,7 @@ class FunctionCall : public MessageBase<FunctionCall> {
     std::array<std::byte, 1024> buffer; // When composing a msg, buffer doesn't represent the payload but some bufferized data
     size_t encodeBufferIndex = 0;
     friend class MessageBase<FunctionCall>;
+    friend class FunctionReturn;
 
     template<typename T>
     constexpr auto typeName() {
@@ -357,14 +358,8 @@ public:
 
 /// Encodes FunctionCall return values (or exceptions)
 class FunctionReturn : public FunctionCall {
-    struct Header {
-        Command command = Command::functionReturn;
-        uint8_t parametersCount = 0;
-        std::array<uint8_t, 2> padding{};
-        uint32_t parametersDataSize = 0;
-    } head;
-    static_assert(sizeof(Header) == 8, "FunctionReturn header has to be 8 bytes long");
-    friend class MessageBase<FunctionReturn>;
+public:
+    FunctionReturn() { head.command = Command::functionReturn; }
 };
 
 } // namespace webfront::msg
-- 
2.43.0


From e702e21aa192c3ffbef54e75bf51c1047aed9cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 37/53] fix: the last parameter can be an empty string

The element following the last one was indexed.
---
 include/weblink/Messages.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 80a68bc..d9eb629 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -296,7 +296,7 @@ public:
                 if (data.size() < 2u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 auto size = static_cast<size_t>(data[1]);
                 if (data.size() < 2u + size) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
-                param = string(reinterpret_cast<const char*>(&data[2]), size);
+                param = string(reinterpret_cast<const char*>(data.data() + 2), size);
                 data = data.subspan(2 + size);
             }
             else
@@ -309,7 +309,7 @@ public:
                 uint16_t size;
                 copy_n(&data[1], 2, reinterpret_cast<byte*>(&size));
                 if (data.size() < 3u + size) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
-                param = string(reinterpret_cast<const char*>(&data[3]), size);
+                param = string(reinterpret_cast<const char*>(data.data() + 3), size);
                 data = data.subspan(3 + size);
             }
             else
-- 
2.43.0


From 31bae51e7ae55c850b078a1e49214d23e162e366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 38/53] fix: a number that an integral parameter cannot hold is
 refused

The conversion was undefined behaviour.
---
 include/weblink/Messages.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index d9eb629..1d4321f 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -5,7 +5,10 @@
 
 #include <array>
 #include <bit>
+#include <cmath>
 #include <cstddef>
+#include <limits>
+#include <list>
 #include <span>
 #include <stdexcept>
 #include <string>
@@ -330,6 +333,9 @@ public:
                 if (data.size() < 1u + sizeof(value))
                     throw runtime_error("Erroneous 'number' data feeded to msg::FunctionCall::decodeParameter");
                 copy_n(&data[1], sizeof(value), reinterpret_cast<byte*>(&value));
+                if constexpr (is_integral_v<T>)
+                    if (!(trunc(value) >= static_cast<double>(numeric_limits<T>::min()) && trunc(value) < ldexp(1., numeric_limits<T>::digits)))
+                        throw runtime_error("Number out of the range of the parameter");
                 param = static_cast<T>(value);
                 data = data.subspan(1 + sizeof(value));
             }
-- 
2.43.0


From 9d161d6f45102bda0dbdd90f7dd3174014500032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 39/53] fix: a JsFunction can be called several times, with any
 number of parameters

The payload size of the previous calls was added to each call, and the encoding
buffer was written past its end after some calls or a hundred parameters.
---
 include/JsFunction.hpp       |  2 +-
 include/weblink/Messages.hpp | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/JsFunction.hpp b/include/JsFunction.hpp
index 5eb62f8..11ce0d5 100644
--- a/include/JsFunction.hpp
+++ b/include/JsFunction.hpp
@@ -21,7 +21,7 @@ public:
         : name(functionName), webFront(wf), webLinkId(linkId) {}
 
     void operator()(auto&&... ts) {
-        command.setParametersCount(0);
+        command.reset();
         websocket::Frame<typename WebFront::Net> frame{std::span(reinterpret_cast<const std::byte*>(command.header().data()), command.header().size())};
         command.encodeParameter(name, frame);
         (((command.encodeParameter(std::forward<decltype(ts)>(ts), frame))), ...);
diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 1d4321f..0397a4a 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -169,8 +169,7 @@ class FunctionCall : public MessageBase<FunctionCall> {
     } head;
     static_assert(sizeof(Header) == 8, "FunctionCall header has to be 8 bytes long");
 
-    std::array<std::byte, 1024> buffer; // When composing a msg, buffer doesn't represent the payload but some bufferized data
-    size_t encodeBufferIndex = 0;
+    std::list<std::array<std::byte, 16>> encodeBuffers; // When composing a msg, doesn't represent the payload but some bufferized data
     friend class MessageBase<FunctionCall>;
     friend class FunctionReturn;
 
@@ -194,6 +193,11 @@ public:
     void setPayloadSize(uint32_t size) { head.parametersDataSize = size; }
     [[nodiscard]] uint8_t getParametersCount() const { return head.parametersCount; }
     [[nodiscard]] size_t getPayloadSize() const { return head.parametersDataSize; }
+    void reset() {
+        setParametersCount(0);
+        setPayloadSize(0);
+        encodeBuffers.clear();
+    }
     void incrementPayloadSize(auto value) {
         setPayloadSize(static_cast<uint32_t>(getPayloadSize()) + static_cast<uint32_t>(value));
     }
@@ -209,6 +213,8 @@ public:
         using namespace std;
         using ParamType = remove_cvref_t<T>;
         setParametersCount(getParametersCount() + 1);
+        auto& buffer = encodeBuffers.emplace_back(); // Will be refered to by the frame
+        size_t encodeBufferIndex = 0;
 
         if constexpr (is_printable<T>::value) {
             std::cout << "Param: " << typeName<T>() << " -> " << typeName<ParamType>() << " : " << t << "\n";
-- 
2.43.0


From a3f688f9707078c7e7d0dc33c4d8dd3c223e766b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 40/53] fix: a tuple counts for one parameter

Its elements were counted too, and the client waited for parameters that did not
exist.
---
 include/JsFunction.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/JsFunction.hpp b/include/JsFunction.hpp
index 11ce0d5..cefdfc6 100644
--- a/include/JsFunction.hpp
+++ b/include/JsFunction.hpp
@@ -25,6 +25,7 @@ public:
         websocket::Frame<typename WebFront::Net> frame{std::span(reinterpret_cast<const std::byte*>(command.header().data()), command.header().size())};
         command.encodeParameter(name, frame);
         (((command.encodeParameter(std::forward<decltype(ts)>(ts), frame))), ...);
+        command.setParametersCount(1 + sizeof...(ts));
         
         webFront.getLink(webLinkId).sendFrame(std::move(frame));
     }
-- 
2.43.0


From dfb8107d4aa6064f04bcb9e6d09c48b64f04d520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 41/53] fix: what does not fit in a message is refused

Sizes were truncated to the size of their field, which made the rest of the
message undecodable. Log lines are shortened.
---
 include/JsFunction.hpp       | 2 ++
 include/weblink/Messages.hpp | 8 +++++++-
 include/weblink/WebLink.hpp  | 2 +-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/JsFunction.hpp b/include/JsFunction.hpp
index cefdfc6..d7a5399 100644
--- a/include/JsFunction.hpp
+++ b/include/JsFunction.hpp
@@ -8,6 +8,7 @@
 
 #include <algorithm>
 #include <array>
+#include <stdexcept>
 #include <string_view>
 
 #include <iostream>
@@ -21,6 +22,7 @@ public:
         : name(functionName), webFront(wf), webLinkId(linkId) {}
 
     void operator()(auto&&... ts) {
+        if (sizeof...(ts) > 254) throw std::length_error("Too many parameters for a Javascript function");
         command.reset();
         websocket::Frame<typename WebFront::Net> frame{std::span(reinterpret_cast<const std::byte*>(command.header().data()), command.header().size())};
         command.encodeParameter(name, frame);
diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 0397a4a..60a7870 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -149,11 +149,15 @@ class TextCommand : public MessageBase<TextCommand> {
     friend class MessageBase<TextCommand>;
 
 public:
+    static constexpr size_t maxTextSize = 65535;
+
     TextCommand(TxtOpcode opcode, std::string_view text)
         : head{.opcode = opcode,
                .lengthHi = static_cast<uint8_t>(text.size() >> 8),
                .lengthLo = static_cast<uint8_t>(text.size())},
-          payloadSpan{reinterpret_cast<const std::byte*>(text.data()), text.size()} {}
+          payloadSpan{reinterpret_cast<const std::byte*>(text.data()), text.size()} {
+        if (text.size() > maxTextSize) throw std::length_error("Text too long for a text command");
+    }
 
     [[nodiscard]] std::span<const std::byte> payload() const { return payloadSpan; }
     [[nodiscard]] size_t getPayloadSize() const { return static_cast<uint16_t>(256 * head.lengthHi + head.lengthLo); }
@@ -229,6 +233,7 @@ public:
         };
 
         [[maybe_unused]] auto encodeString = [&](const char* str, size_t size) constexpr {
+            if (size > 65535) throw length_error("String parameter too long");
             if (size < 256)
                 encodeType(msg::CodedType::smallString, static_cast<uint8_t>(size), frame);
             else
@@ -240,6 +245,7 @@ public:
         };
 
         if constexpr (is_tuple_v<ParamType>) {
+            if (tuple_size<ParamType>::value > 255) throw length_error("Tuple parameter too long");
             uint8_t nbParams = static_cast<uint8_t>(tuple_size<ParamType>::value);
             encodeType(msg::CodedType::tuple, nbParams, frame);
             std::apply([&](auto&... tupleArgs) { ((encodeParameter(tupleArgs, frame)), ...); }, t);
diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index d0dffec..737ef23 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -54,7 +54,7 @@ public:
                 sendCommand(msg::Ack{});
                 if (logSink) break; // already linked
                 logSink =
-                  log::addSinks([this](std::string_view t) { sendCommand(msg::TextCommand(msg::TxtOpcode::debugLog, t)); });
+                  log::addSinks([this](std::string_view t) { sendCommand(msg::TextCommand(msg::TxtOpcode::debugLog, t.substr(0, msg::TextCommand::maxTextSize))); });
                 sameEndian = (std::endian::native == std::endian::little &&
                               static_cast<msg::JSEndian>(command->getEndian()) == msg::JSEndian::little) ||
                              (std::endian::native == std::endian::big &&
-- 
2.43.0


From 110c986dee6d91d8e7f2c285e8e92e1dc39d56f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 42/53] fix: places of removed log sinks are used again

The list of sinks grew by one for each client that had ever been linked.
---
 include/tooling/Logger.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/tooling/Logger.hpp b/include/tooling/Logger.hpp
index dd10a16..4004981 100644
--- a/include/tooling/Logger.hpp
+++ b/include/tooling/Logger.hpp
@@ -5,6 +5,7 @@
 #include "../details/C++20Support.hpp" // Provides <format> and <source_location>
 #include "HexDump.hpp"
 
+#include <algorithm>
 #include <array>
 #include <chrono>
 #include <filesystem>
@@ -12,6 +13,7 @@
 #include <iostream>
 #include <list>
 #include <string_view>
+#include <vector>
 
 namespace webfront::log {
 using LogType = const uint8_t;
@@ -66,6 +68,12 @@ template<typename... Ts> void error(string_view fmt, Ts&&... ts) { if (is(Error)
 template<typename... Ts> void warn(string_view fmt, Ts&&... ts) { if (is(Warn)) log(Warn, fmt, std::forward<Ts>(ts)...); }
 template<typename... Ts> void info(string_view fmt, Ts&&... ts) { if (is(Info)) log(Info, fmt, std::forward<Ts>(ts)...); }
 void infoHex(string_view text, auto container) { if (is(Info)) { log(Info, text); out(utils::hexDump(container)); }}
-auto addSinks(auto&&... ts) { (out.sinks.push_back(std::forward<decltype(ts)>(ts)), ...); return out.sinks.size() - 1; }
+inline size_t addSink(std::function<void(std::string_view)> sink) {
+    auto slot = std::find(out.sinks.begin(), out.sinks.end(), nullptr); // left by a removed sink
+    if (slot == out.sinks.end()) slot = out.sinks.emplace(slot);
+    *slot = std::move(sink);
+    return static_cast<size_t>(slot - out.sinks.begin());
+}
+auto addSinks(auto&&... ts) { size_t id{}; ((id = addSink(std::forward<decltype(ts)>(ts))), ...); return id; }
 void removeSinks(auto&&... sinkIds) { ((out.sinks[sinkIds] = nullptr), ...); }
 } //namespace webfront::log
\ No newline at end of file
-- 
2.43.0


From 087fab9b0e33721a99804d5a96c5f7ba033b0523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 43/53] fix: identifiers of links are never used again

After 65536 connections the identifier of a lost client was given to a new one,
which got the scripts and calls addressed to the lost one.
---
 include/weblink/WebLink.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index 737ef23..dda1df2 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -13,7 +13,7 @@
 
 namespace webfront {
 
-using WebLinkId = uint16_t;
+using WebLinkId = uint64_t;
 
 struct WebLinkEvent {
     enum class Code { linked, closed, cppFunctionCalled };
-- 
2.43.0


From bc3823d88f06419cd8b46a012631ddee23bb544d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:43 +0000
Subject: [PATCH 44/53] fix: header lists are compared element by element

---
 include/http/HTTPServer.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 8f5c433..d596c2a 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -61,6 +61,22 @@ public:
         return false;
     }
 
+    /// @return true if token is an element of the comma separated lists of headerName (case insensitive, parameters of the elements are ignored)
+    [[nodiscard]] bool headersList(std::string_view headerName, std::string_view token) const {
+        for (const auto& value : getHeadersValues(headerName)) {
+            std::string_view list = value;
+            while (!list.empty()) {
+                auto element = list.substr(0, list.find(','));
+                list.remove_prefix(std::min(element.size() + 1, list.size()));
+                element = element.substr(0, element.find(';'));
+                element.remove_prefix(std::min(element.find_first_not_of(" \t"), element.size()));
+                element = element.substr(0, element.find_last_not_of(" \t") + 1);
+                if (caseInsensitiveEqual(element, token)) return true;
+            }
+        }
+        return false;
+    }
+
     std::vector<Header> headers;
 
 private:
@@ -100,7 +116,7 @@ struct Request : Headers {
     void setMethod(std::string_view text) { method = getMethodFromString(text); }
 
     [[nodiscard]] bool isUpgradeRequest(std::string_view protocol) const {
-        return headersContain("Connection", "upgrade") && headersContain("Upgrade", protocol);
+        return headersList("Connection", "upgrade") && headersList("Upgrade", protocol);
     }
 
     template<typename InputIterator>
@@ -303,7 +319,7 @@ private:
             auto file = fs.open(requestPath);
             if (!file) return Response::getStatusResponse(Response::notFound);
             if (file->isEncoded()) {
-                if (request.method == Request::Method::Get && !request.headersContain("Accept-Encoding", file->getEncoding())) {
+                if (request.method == Request::Method::Get && !request.headersList("Accept-Encoding", file->getEncoding())) {
                     log::error("File {} encoding is not supported by client : HTTP ERROR 506", file->getEncoding());
                     return Response::getStatusResponse(Response::variantAlsoNegotiates);
                 }
-- 
2.43.0


From 5de69fba51b12785e1650327b8542f96d6616f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 45/53] fix: a subprotocol is selected only if the client
 offers it

---
 include/http/HTTPServer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index d596c2a..8196bc6 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -311,7 +311,7 @@ private:
                     response.headers.emplace_back("Upgrade", "websocket");
                     response.headers.emplace_back("Connection", "Upgrade");
                     response.headers.emplace_back("Sec-WebSocket-Accept", websocket::getHashedSecKey(key.value()));
-                    response.headers.emplace_back("Sec-WebSocket-Protocol", "WebFront_0.1");
+                    if (request.headersList("Sec-WebSocket-Protocol", "WebFront_0.1")) response.headers.emplace_back("Sec-WebSocket-Protocol", "WebFront_0.1");
                     return response;
                 }
             }
-- 
2.43.0


From b4d6a66b6ff02c7d3e24a9ec0d5d96fc9f3a858a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:41 +0000
Subject: [PATCH 46/53] fix: the bytes after a short WebSocket header are not
 read as an extended length

---
 include/http/WebSocket.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 20679ac..4bf01b9 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -50,6 +50,7 @@ struct Header {
     [[nodiscard]] bool MASK() const { return test(1, 7); }
     [[nodiscard]] uint8_t payloadLenField() const { return std::to_integer<uint8_t>(raw[1] & std::byte(0b1111111)); }
     [[nodiscard]] uint64_t extendedLenField() const {
+        if (payloadLenField() < 126) return 0; // those bytes are not part of the header
         auto s = [this](size_t i, uint8_t shift = 0) constexpr { return std::to_integer<uint64_t>(raw[i]) << shift; };
         return payloadLenField() == 126 ? s(2, 8) | s(3) : s(2, 56) | s(3, 48) | s(4, 40) | s(5, 32) | s(6, 24) | s(7, 16) | s(8, 8) | s(9, 0);
     }
-- 
2.43.0


From 0210d2cf7598cd4bcc072c328e6a5eb2c04c35f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:41 +0000
Subject: [PATCH 47/53] fix: URI encoding of bytes above 127

---
 include/http/Encodings.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index 44ab149..5a0a3f9 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -21,9 +21,10 @@ namespace uri {
 [[nodiscard]] inline std::string encode(std::string_view uri) {
     std::string encoded;
     static std::array digits{'0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'A', 'B', 'C', 'D', 'E', 'F'};
-    for (auto c : uri) {
+    for (auto character : uri) {
+        auto c = static_cast<unsigned char>(character);
         if (std::isalnum(c) || c == '-' || c == '_' || c == '.' || c == '~')
-            encoded += c;
+            encoded += character;
         else {
             encoded += "%";
             encoded += digits[static_cast<size_t>(c >> 4)];
-- 
2.43.0


From 6bbaea472c6cf743ffab07a1a01f764552a87f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:26 +0000
Subject: [PATCH 48/53] fix: base64 encoding of inputs of any length

---
 include/http/Encodings.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index 5a0a3f9..9c51bdc 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -115,7 +115,7 @@ namespace detail {
     std::string output((4 * (size + 2) / 3), '\0');
     auto coded = output.begin();
     size_t i = 0;
-    for (; i < size - 2; i += 3) {
+    for (; i + 2 < size; i += 3) {
         *coded++ = code[(input[i] >> 2) & 0x3Fu];
         *coded++ = code[((input[i] & 0x3u) << 4) | ((input[i + 1] & 0xF0u) >> 4)];
         *coded++ = code[((input[i + 1] & 0xFu) << 2) | ((input[i + 2] & 0xC0u) >> 6)];
@@ -133,7 +133,7 @@ namespace detail {
         }
         *coded++ = '=';
     }
-    if (coded != output.end()) output.erase(coded);
+    output.erase(coded, output.end());
 
     return output;
 }
-- 
2.43.0


From d49ef6bd4673516668ab894563cc8385c2c4de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 49/53] fix: a connection which can not be accepted for lack of
 memory no longer ends the accepting of the others

---
 include/http/HTTPServer.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 8196bc6..acdc8fa 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -357,8 +357,14 @@ public:
 
     void start(std::shared_ptr<ConnectionType> connection) {
         log::debug("Start connection 0x{:016x}", reinterpret_cast<std::uintptr_t>(connection.get()));
-        connections.insert(connection);
-        connection->start();
+        auto position = connections.insert(connection).first;
+        try {
+            connection->start();
+        }
+        catch (...) {
+            connections.erase(position);
+            throw;
+        }
     }
 
     void stop(std::shared_ptr<ConnectionType> connection) {
@@ -495,9 +501,14 @@ private:
     void accept() {
         acceptor.async_accept([this](std::error_code ec, typename Net::Socket socket) {
             if (!acceptor.is_open()) return;
-            auto newConnection = std::make_shared<Connection<Net, FS>>(std::move(socket), connections, requestHandler);
-            newConnection->onUpgrade = upgradeHandler;
-            if (!ec) connections.start(newConnection);
+            try {
+                auto newConnection = std::make_shared<Connection<Net, FS>>(std::move(socket), connections, requestHandler);
+                newConnection->onUpgrade = upgradeHandler;
+                if (!ec) connections.start(newConnection);
+            }
+            catch (const std::exception& e) { // the other clients are still to be served
+                log::error("A connection was not accepted : {}", e.what());
+            }
             accept();
         });
     }
-- 
2.43.0


From f9f0f8d22412dd54ce913a3e58aa61613be9cd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 50/53] fix: close an HTTP connection whose handling failed for
 lack of memory instead of leaving it open for ever

---
 include/http/HTTPServer.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index acdc8fa..c213d89 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -415,7 +415,7 @@ private:
 
     void read() {
         auto self(this->shared_from_this());
-        socket.async_read_some(Net::Buffer(buffer), [this, self](std::error_code ec, std::size_t bytesTransferred) {
+        socket.async_read_some(Net::Buffer(buffer), closingOnFailure([this, self](std::error_code ec, std::size_t bytesTransferred) {
             if (!ec) {
                 switch (protocol) {
                 case Protocol::HTTP:
@@ -443,12 +443,12 @@ private:
             }
             else if (ec != Net::Error::OperationAborted)
                 connections.stop(self);
-        });
+        }));
     }
 
     void write() {
         auto self(this->shared_from_this());
-        Net::AsyncWrite(socket, response.toBuffers<Net>(), [this, self](std::error_code ec, std::size_t /*bytesTransferred*/) {
+        Net::AsyncWrite(socket, response.toBuffers<Net>(), closingOnFailure([this, self](std::error_code ec, std::size_t /*bytesTransferred*/) {
             if (!ec && protocol == Protocol::HTTPUpgrading) {
                 protocol = Protocol::WebSocket;
                 if (onUpgrade) onUpgrade(std::move(socket), protocol);
@@ -463,7 +463,20 @@ private:
                 }
                 if (ec != Net::Error::OperationAborted) connections.stop(self);
             }
-        });
+        }));
+    }
+
+    /// @return a handler which closes the connection when the given one throws : nothing else would make it progress
+    auto closingOnFailure(auto handler) {
+        return [this, self = this->shared_from_this(), handler = std::move(handler)](std::error_code ec, std::size_t bytesTransferred) {
+            try {
+                handler(ec, bytesTransferred);
+            }
+            catch (const std::exception& e) {
+                log::error("Connection closed : {}", e.what());
+                connections.stop(self);
+            }
+        };
     }
 };
 
-- 
2.43.0


From e7c6c6528f918df2eb1cf37376c9b66db7b5d093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 51/53] fix: close a WebSocket whose handling failed for lack
 of memory, and never queue a part of a message

---
 include/http/WebSocket.hpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 4bf01b9..a35178c 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -299,7 +299,7 @@ private:
 private:
     void read() {
         ++pendingOperations;
-        socket.async_read_some(Net::Buffer(readBuffer), [this](std::error_code ec, std::size_t bytesTransferred) {
+        socket.async_read_some(Net::Buffer(readBuffer), operation([this](std::error_code ec, std::size_t bytesTransferred) {
             if (!ec) {
                 auto received = std::span<const std::byte>(readBuffer.data(), bytesTransferred);
                 while (started && decoder.parse(received)) {
@@ -320,7 +320,6 @@ private:
                     case Header::Opcode::connectionClose:
                         writeData(Frame<Net>(Header::Opcode::connectionClose, data.first(data.size() < 2 ? 0 : 2)));
                         closing = true;
-                        operationDone();
                         return;
                     case Header::Opcode::ping: writeData(Frame<Net>(Header::Opcode::pong, data)); break;
                     default: log::debug("Unhandled frameType");
@@ -333,15 +332,28 @@ private:
                 stop(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
                 log::error("Error in websocket::read() : {}:{}", ec.value(), ec.message());
             }
+        }));
+    }
+
+    /// @return a handler which accounts for the end of the operation and closes the connection when the given one throws
+    auto operation(auto handler) {
+        return [this, handler](std::error_code ec, std::size_t bytesTransferred) {
+            try {
+                handler(ec, bytesTransferred);
+            }
+            catch (const std::exception& e) {
+                log::error("WebSocket closed : {}", e.what());
+                stop();
+            }
             operationDone();
-        });
+        };
     }
 
     /// Tells about the end of the connection when no operation can refer to this WebSocket any more : it can then be destroyed
     void operationDone() {
         if (--pendingOperations > 0 || started || !closeHandler) return;
         auto handler = std::exchange(closeHandler, nullptr);
-        handler(closeEvent);
+        handler(std::move(closeEvent));
     }
 
     void deliverMessage() {
@@ -361,18 +373,19 @@ private:
 
     void writeData(Frame<Net> frame) {
         if (closing || !started) return; // nothing follows a close frame
-        auto& message = outgoing.emplace_back();
+        std::vector<std::byte> message;
         for (auto& buffer : frame.toBuffers()) {
             auto data = reinterpret_cast<const std::byte*>(buffer.data());
             message.insert(message.end(), data, data + buffer.size());
         }
+        outgoing.push_back(std::move(message));
         if (outgoing.size() == 1) writeNext();
     }
 
     void writeNext() {
         ++pendingOperations;
-        std::vector<typename Net::ConstBuffer> buffers{{outgoing.front().data(), outgoing.front().size()}};
-        Net::AsyncWrite(socket, buffers, [this](std::error_code ec, std::size_t /*bytesTransferred*/) {
+        std::array<typename Net::ConstBuffer, 1> buffers{{{outgoing.front().data(), outgoing.front().size()}}};
+        Net::AsyncWrite(socket, buffers, operation([this](std::error_code ec, std::size_t /*bytesTransferred*/) {
             outgoing.pop_front();
             if (ec) {
                 if (started) {
@@ -384,8 +397,7 @@ private:
                 writeNext();
             else if (closing)
                 stop();
-            operationDone();
-        });
+        }));
     }
 };
 
-- 
2.43.0


From 2da6e607565aaf7d0ad934086acfae9782abe69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 52/53] fix: a WebLink whose creation fails for lack of memory
 no longer leaves an operation on its destroyed WebSocket, its end is always
 handled

---
 include/weblink/WebLink.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index dda1df2..c8b1589 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -37,7 +37,7 @@ class WebLink {
 
 public:
     WebLink(typename Net::Socket&& socket, WebLinkId webLinkId, std::function<void(WebLinkEvent)> eventHandler)
-        : ws(std::move(socket)), id(webLinkId), eventsHandler(eventHandler) {
+        : ws(std::move(socket)), id(webLinkId), eventsHandler(std::move(eventHandler)) {
         log::debug("New WebLink created with id:{}", id);
 
         ws.onMessage([this](std::string_view text) {
@@ -86,7 +86,7 @@ public:
         });
 
         ws.onClose([this](websocket::CloseEvent) {
-            auto handler = eventsHandler; // this WebLink is destroyed by the handling of the event
+            auto handler = std::move(eventsHandler); // this WebLink is destroyed by the handling of the event
             handler({WebLinkEvent::Code::closed, id});
         });
 
-- 
2.43.0


From ae5d769d0ce14260573c2d93e9f8570ea8d87054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 53/53] fix: logging no longer fails for lack of memory, in
 destructors for instance

---
 include/tooling/Logger.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/tooling/Logger.hpp b/include/tooling/Logger.hpp
index 4004981..36e9ab5 100644
--- a/include/tooling/Logger.hpp
+++ b/include/tooling/Logger.hpp
@@ -12,6 +12,7 @@
 #include <functional>
 #include <iostream>
 #include <list>
+#include <new>
 #include <string_view>
 #include <vector>
 
@@ -20,10 +21,12 @@ using LogType = const uint8_t;
 constinit LogType Disabled = 0, Error = 1, Warn = 2, Info = 3, Debug = 4;
 const auto clogSink = [](std::string_view t) { std::clog << t << "\n"; };
 inline bool logTypeEnabled[Debug + 1];
+/// Runs a part of the logging : the line is lost when memory is short, the code which logs it goes on
+void attempt(auto&& part, auto&&... args) try { part(args...); } catch (const std::bad_alloc&) {}
 inline struct Sinks {
     void operator()(std::string_view t) const {
         for (auto& s : sinks)
-            if (s) s(t);
+            if (s) attempt(s, t);
     }
     inline static std::vector<std::function<void(std::string_view)>> sinks;
 } out;
@@ -60,14 +63,14 @@ namespace {
 }
 
 template<typename... Ts> struct debug { debug(string_view fmt, Ts&&... ts, const srcLoc& l = srcLoc::current()) {
-    if (is(Debug)) log(Debug, fmt, l, std::forward<Ts>(ts)...);
+    if (is(Debug)) attempt([&] { log(Debug, fmt, l, std::forward<Ts>(ts)...); });
     }
 };
 template<typename... Ts> debug(string_view, Ts&&...) -> debug<Ts...>;
-template<typename... Ts> void error(string_view fmt, Ts&&... ts) { if (is(Error)) log(Error, fmt, std::forward<Ts>(ts)...); }
-template<typename... Ts> void warn(string_view fmt, Ts&&... ts) { if (is(Warn)) log(Warn, fmt, std::forward<Ts>(ts)...); }
-template<typename... Ts> void info(string_view fmt, Ts&&... ts) { if (is(Info)) log(Info, fmt, std::forward<Ts>(ts)...); }
-void infoHex(string_view text, auto container) { if (is(Info)) { log(Info, text); out(utils::hexDump(container)); }}
+template<typename... Ts> void error(string_view fmt, Ts&&... ts) { if (is(Error)) attempt([&] { log(Error, fmt, std::forward<Ts>(ts)...); }); }
+template<typename... Ts> void warn(string_view fmt, Ts&&... ts) { if (is(Warn)) attempt([&] { log(Warn, fmt, std::forward<Ts>(ts)...); }); }
+template<typename... Ts> void info(string_view fmt, Ts&&... ts) { if (is(Info)) attempt([&] { log(Info, fmt, std::forward<Ts>(ts)...); }); }
+void infoHex(string_view text, auto container) { if (is(Info)) attempt([&] { log(Info, text); out(utils::hexDump(container)); }); }
 inline size_t addSink(std::function<void(std::string_view)> sink) {
     auto slot = std::find(out.sinks.begin(), out.sinks.end(), nullptr); // left by a removed sink
     if (slot == out.sinks.end()) slot = out.sinks.emplace(slot);
-- 
2.43.0

