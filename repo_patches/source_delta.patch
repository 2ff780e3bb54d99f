From 03a8b5fef7820dcbffbb974fb5b566fd0c54bfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 01/76] fix: keep the "?" of a request uri that has an empty
 query string

---
 pillowcore/HttpConnection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 3ac43a1..07a9486 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -263,9 +263,9 @@ inline void Pillow::HttpConnectionPrivate::transitionToSendingHeaders()
 
 	char* data = _requestBuffer.data();
 
-	if (_parser.query_string_len == 0)
+	if (_parser.request_path_len == 0 || _parser.request_path_len == _parser.request_uri_len)
 	{
-		// The request uri has no query string, we can use the data straight because it means that inserting null after the path
+		// Nothing follows the path in the uri, we can use the data straight because it means that inserting null after the path
 		// will not destroy the uri (which does not include the fragment).
 		setFromRawDataAndNullterm(_requestUri, data, _parser.request_uri_start, _parser.request_uri_len);
 	}
-- 
2.43.0


From 36730410e7a7f87e427b66821b8db89cb09f0a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 02/76] fix: send a valid status line when given an invalid
 status code

---
 pillowcore/HttpConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 07a9486..289d458 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -456,7 +456,7 @@ inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 	{
 		// Huh? Trying to send a bad status code...
 		qWarning() << "HttpConnection::writeHeaders:" << statusCode << "is not a valid Http status code. Using 500 Internal Server Error instead.";
-		statusCodeAndMessage = HttpProtocol::StatusCodes::getStatusMessage(500); // Internal server error.
+		statusCodeAndMessage = HttpProtocol::StatusCodes::getStatusCodeAndMessage(500); // Internal server error.
 	}
 	_responseStatusCode = statusCode;
 
-- 
2.43.0


From 28fdbe2adc6cf89d2b5417b45a265cc4b910e7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 03/76] fix: do not truncate response content lengths over 2 GB

---
 pillowcore/HttpConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 289d458..907c01b 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -543,7 +543,7 @@ inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 		_responseConnectionKeepAlive = false;
 
 	// Automatically add essential headers.
-	if (_responseContentLength != -1) { _responseHeadersBuffer.append(contentLengthOutToken); appendNumber<int, 10>(_responseHeadersBuffer, _responseContentLength); _responseHeadersBuffer.append(crLfToken); }
+	if (_responseContentLength != -1) { _responseHeadersBuffer.append(contentLengthOutToken); appendNumber<qint64, 10>(_responseHeadersBuffer, _responseContentLength); _responseHeadersBuffer.append(crLfToken); }
 	if (contentTypeHeader) { _responseHeadersBuffer.append(*contentTypeHeader); } else if (_responseContentLength > 0) { _responseHeadersBuffer.append(contentTypeTextPlainTokenHeaderToken); }
 	if (!_requestHttp11 || !_responseConnectionKeepAlive) _responseHeadersBuffer.append(_responseConnectionKeepAlive ? connectionKeepAliveHeaderToken : connectionCloseHeaderToken);
 	if (transferEncodingHeader) { _responseHeadersBuffer.append(*transferEncodingHeader); }
-- 
2.43.0


From 62050af636204176a07a25d0612247eb52796957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 04/76] fix: do not touch the next pipelined request after
 completing a response in writeHeaders

---
 pillowcore/HttpConnection.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 907c01b..838ecbb 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -121,7 +121,7 @@ namespace Pillow
 	public: // From public interface.
 		void writeResponse(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection(), const QByteArray& content = QByteArray());
 		void writeResponseString(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection(), const QString& content = QString());
-		void writeHeaders(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection());
+		bool writeHeaders(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection()); // Returns whether the response still needs its content.
 		void writeContent(const QByteArray& content);
 		void endContent();
 		void close();
@@ -307,14 +307,15 @@ inline void Pillow::HttpConnectionPrivate::transitionToSendingContent()
 	else
 		_responseHeadersBuffer.data_ptr()->size = 0;
 
-	if (_responseContentLength == 0 || _requestMethod == headToken)
-		transitionToCompleted();
-
 	if (_responseContentLength < 0 && !_responseChunkedTransferEncoding)
 	{
 		// The response content length needs to be specified or chunked transfer encoding used to support keep-alive. Forcefully disable it.
 		_responseConnectionKeepAlive = false;
 	}
+
+	// NOTE: This may dispatch the next request; nothing about the current one can be used after it.
+	if (_responseContentLength == 0 || _requestMethod == headToken)
+		transitionToCompleted();
 }
 
 inline void Pillow::HttpConnectionPrivate::transitionToCompleted()
@@ -439,16 +440,16 @@ inline void Pillow::HttpConnectionPrivate::writeResponse(int statusCode, const H
 
 	// Calculate the Content-Length header so it can be set in WriteHeaders, unless it is already present.
 	_responseContentLength = content.size();
-	writeHeaders(statusCode, headers);
-	if (!content.isEmpty() && _requestMethod != headToken) writeContent(content);
+	// NOTE: Completing the response in writeHeaders may already have moved on to the next request.
+	if (writeHeaders(statusCode, headers) && !content.isEmpty()) writeContent(content);
 }
 
-inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const HttpHeaderCollection &headers)
+inline bool Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const HttpHeaderCollection &headers)
 {
 	if (_state != Pillow::HttpConnection::SendingHeaders)
 	{
 		qWarning() << "HttpConnection::writeHeaders called while state is not 'SendingHeaders', not proceeding with sending headers.";
-		return;
+		return false;
 	}
 
 	const char* statusCodeAndMessage = HttpProtocol::StatusCodes::getStatusCodeAndMessage(statusCode);
@@ -548,8 +549,10 @@ inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 	if (!_requestHttp11 || !_responseConnectionKeepAlive) _responseHeadersBuffer.append(_responseConnectionKeepAlive ? connectionKeepAliveHeaderToken : connectionCloseHeaderToken);
 	if (transferEncodingHeader) { _responseHeadersBuffer.append(*transferEncodingHeader); }
 	_responseHeadersBuffer.append(crLfToken); // End of headers.
+	const bool needsContent = _responseContentLength != 0 && _requestMethod != headToken;
 	_outputDevice->write(_responseHeadersBuffer);
 	transitionToSendingContent();
+	return needsContent;
 }
 
 inline void Pillow::HttpConnectionPrivate::writeContent(const QByteArray &content)
-- 
2.43.0


From 75e042722065338c953445a4bab6b0fd728f6c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 05/76] fix: stay closed when the connection closes while its
 request completes

---
 pillowcore/HttpConnection.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 838ecbb..633e7e6 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -327,6 +327,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToCompleted()
 	}
 	_state = Pillow::HttpConnection::Completed;
 	emit q_ptr->requestCompleted(q_ptr);
+	if (_state != Pillow::HttpConnection::Completed) return; // The connection was closed while announcing the completion.
 
 	// Preserve any existing data in the request buffer that did not belong to the completed request.
 	// Reuse the already allocated buffer if it is not too large.
@@ -345,6 +346,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToCompleted()
 	if (_responseConnectionKeepAlive)
 	{
 		flush(); // Done writing for this request, make sure the data is pushed right away to the client.
+		if (_state != Pillow::HttpConnection::Completed) return; // The client went away.
 		transitionToReceivingHeaders();
 		processInput();
 	}
-- 
2.43.0


From 944a718b10a79ba8155fde469292d92928d19a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 06/76] fix: copy response content that may refer to the
 request buffer

---
 pillowcore/HttpConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 633e7e6..2d342b8 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -583,7 +583,7 @@ inline void Pillow::HttpConnectionPrivate::writeContent(const QByteArray &conten
 			QByteArray buffer; appendNumber<int, 16>(buffer, content.size()); buffer.append("\r\n", 2);
 			_outputDevice->write(buffer);
 		}
-		_outputDevice->write(content);
+		_outputDevice->write(content.constData(), content.size()); // Always copied: the content may refer to the request buffer, which does not outlive the request.
 
 		if (_responseChunkedTransferEncoding)
 			_outputDevice->write("\r\n", 2);
-- 
2.43.0


From 1fadf7cbcf365ad832aed280ade45f8056ceb908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 07/76] fix: do not corrupt the request buffer when reading the
 device fails

---
 pillowcore/HttpConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 2d342b8..01a05f0 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -164,7 +164,7 @@ inline void Pillow::HttpConnectionPrivate::processInput()
 		if (_requestBuffer.capacity() < (_requestBuffer.size() + bytesAvailable + 1))
 			_requestBuffer.reserve(_requestBuffer.size() + bytesAvailable + 1);
 		const qint64 bytesRead = _inputDevice->read(_requestBuffer.data() + _requestBuffer.size(), bytesAvailable);
-		_requestBuffer.data_ptr()->size += bytesRead;
+		if (bytesRead > 0) _requestBuffer.data_ptr()->size += bytesRead;
 		_requestBuffer.data()[_requestBuffer.data_ptr()->size] = '\0'; // The parser requires the string to be null terminated.
 	}
 
-- 
2.43.0


From 5c361d083ac98c9c5b14b5291edffeea1d4e0ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:22 +0000
Subject: [PATCH 08/76] fix: do not write to the shared null byte array after a
 large request

---
 pillowcore/HttpConnection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 01a05f0..a118c60 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -144,7 +144,7 @@ inline void Pillow::HttpConnectionPrivate::initialize()
 
 	// Clear any leftover data from a previous potentially failed request (that would not have gone though "transitionToCompleted")
 	if (_requestBuffer.capacity() <= Pillow::HttpConnection::MaximumRequestHeaderLength) _requestBuffer.data_ptr()->size = 0;
-	else _requestBuffer.clear();
+	else { _requestBuffer.clear(); _requestBuffer.detach(); } // Never leave it sharing the global null data.
 	_requestHeadersRef.clear();
 	if (_requestParams.capacity() > 16) _requestParams.clear();
 	else while(!_requestParams.isEmpty()) _requestParams.pop_back();
@@ -334,7 +334,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToCompleted()
 	int remainingBytes = _requestBuffer.size() - int(_parser.body_start) - _requestContentLength;
 	if (remainingBytes > 0) _requestBuffer = _requestBuffer.right(remainingBytes);
 	else if (_requestBuffer.capacity() <= Pillow::HttpConnection::MaximumRequestHeaderLength) _requestBuffer.data_ptr()->size = 0;
-	else _requestBuffer.clear();
+	else { _requestBuffer.clear(); _requestBuffer.detach(); } // Never leave it sharing the global null data.
 
 	_requestHeadersRef.clear();
 
-- 
2.43.0


From ab867b95689b50efb3f7bb54228f4d7fb72be5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 09/76] fix: do not overflow the stack on long request
 pipelines

---
 pillowcore/HttpConnection.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index a118c60..140a98c 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -3,6 +3,7 @@
 #include "private/ByteArray.h"
 #include "parser/parser.h"
 #include <QtCore/QIODevice>
+#include <QtCore/QPointer>
 #include <QtCore/QTimer>
 #include <QtCore/QUrl>
 #include <QtCore/QStringBuilder>
@@ -101,6 +102,10 @@ namespace Pillow
 		bool _responseConnectionKeepAlive;
 		bool _responseChunkedTransferEncoding;
 
+		// How many requests are being dispatched from the completion of a previous one.
+		enum { MaximumNestedDispatches = 32 };
+		int _nestedDispatches;
+
 	public:
 		void initialize();
 		void processInput();
@@ -129,7 +134,7 @@ namespace Pillow
 }
 
 Pillow::HttpConnectionPrivate::HttpConnectionPrivate(HttpConnection *connection)
-	: q_ptr(connection), _state(Pillow::HttpConnection::Uninitialized), _inputDevice(0), _outputDevice(0)
+	: q_ptr(connection), _state(Pillow::HttpConnection::Uninitialized), _inputDevice(0), _outputDevice(0), _nestedDispatches(0)
 {
 	// Detach bytearrays we're going to write to from global shared null as we'll be thinkering with their internal data with the assumption that they are never shared.
 	_requestBuffer.detach();
@@ -348,7 +353,18 @@ inline void Pillow::HttpConnectionPrivate::transitionToCompleted()
 		flush(); // Done writing for this request, make sure the data is pushed right away to the client.
 		if (_state != Pillow::HttpConnection::Completed) return; // The client went away.
 		transitionToReceivingHeaders();
-		processInput();
+
+		// Pipelined requests that are already buffered get dispatched from here, nested in the completion of this one.
+		// Do not let a long pipeline exhaust the stack: past some depth, continue from the event loop.
+		if (_nestedDispatches < MaximumNestedDispatches)
+		{
+			QPointer<HttpConnection> guard(q_ptr);
+			++_nestedDispatches;
+			processInput();
+			if (guard) --_nestedDispatches;
+		}
+		else
+			QTimer::singleShot(0, q_ptr, SLOT(processInput()));
 	}
 	else
 	{
-- 
2.43.0


From 78f224144706655db51de2fee65cda1309cce9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 10/76] fix: do not expose request fields that refer to a freed
 or reused buffer

---
 pillowcore/HttpConnection.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 140a98c..47b3fe5 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -110,6 +110,7 @@ namespace Pillow
 		void initialize();
 		void processInput();
 		void setupRequestHeaders();
+		void forgetRequest(); // Drops the request fields, as the part of the request buffer they refer to is about to be reused.
 		void transitionToReceivingHeaders();
 		void transitionToReceivingContent();
 		void transitionToSendingHeaders();
@@ -150,6 +151,7 @@ inline void Pillow::HttpConnectionPrivate::initialize()
 	// Clear any leftover data from a previous potentially failed request (that would not have gone though "transitionToCompleted")
 	if (_requestBuffer.capacity() <= Pillow::HttpConnection::MaximumRequestHeaderLength) _requestBuffer.data_ptr()->size = 0;
 	else { _requestBuffer.clear(); _requestBuffer.detach(); } // Never leave it sharing the global null data.
+	forgetRequest();
 	_requestHeadersRef.clear();
 	if (_requestParams.capacity() > 16) _requestParams.clear();
 	else while(!_requestParams.isEmpty()) _requestParams.pop_back();
@@ -166,6 +168,7 @@ inline void Pillow::HttpConnectionPrivate::processInput()
 	qint64 bytesAvailable = _inputDevice->bytesAvailable();
 	if (bytesAvailable > 0)
 	{
+		if (_requestBuffer.isEmpty()) forgetRequest();
 		if (_requestBuffer.capacity() < (_requestBuffer.size() + bytesAvailable + 1))
 			_requestBuffer.reserve(_requestBuffer.size() + bytesAvailable + 1);
 		const qint64 bytesRead = _inputDevice->read(_requestBuffer.data() + _requestBuffer.size(), bytesAvailable);
@@ -201,6 +204,19 @@ inline void Pillow::HttpConnectionPrivate::transitionToReceivingHeaders()
 	_requestHttp11 = false;
 }
 
+inline void Pillow::HttpConnectionPrivate::forgetRequest()
+{
+	setFromRawData(_requestMethod, "", 0, 0);
+	setFromRawData(_requestUri, "", 0, 0);
+	setFromRawData(_requestFragment, "", 0, 0);
+	setFromRawData(_requestPath, "", 0, 0);
+	setFromRawData(_requestQueryString, "", 0, 0);
+	setFromRawData(_requestHttpVersion, "", 0, 0);
+	setFromRawData(_requestContent, "", 0, 0);
+	while (!_requestHeaders.isEmpty()) _requestHeaders.pop_back();
+	_requestUriDecoded = _requestFragmentDecoded = _requestPathDecoded = _requestQueryStringDecoded = QString();
+}
+
 inline void Pillow::HttpConnectionPrivate::setupRequestHeaders()
 {
 	char* data = _requestBuffer.data();
@@ -245,7 +261,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToReceivingContent()
 		_requestBuffer.reserve(int(_parser.body_start + _requestContentLength + 1));
 
 		// So do invalidate the request headers.
-		if (_requestHeaders.size() > 0) _requestHeaders.pop_back();
+		while (!_requestHeaders.isEmpty()) _requestHeaders.pop_back();
 
 		// Pump; the content may already be sitting in the buffers.
 		processInput();
@@ -337,16 +353,16 @@ inline void Pillow::HttpConnectionPrivate::transitionToCompleted()
 	// Preserve any existing data in the request buffer that did not belong to the completed request.
 	// Reuse the already allocated buffer if it is not too large.
 	int remainingBytes = _requestBuffer.size() - int(_parser.body_start) - _requestContentLength;
-	if (remainingBytes > 0) _requestBuffer = _requestBuffer.right(remainingBytes);
+	if (remainingBytes > 0) { _requestBuffer = _requestBuffer.right(remainingBytes); forgetRequest(); }
 	else if (_requestBuffer.capacity() <= Pillow::HttpConnection::MaximumRequestHeaderLength) _requestBuffer.data_ptr()->size = 0;
-	else { _requestBuffer.clear(); _requestBuffer.detach(); } // Never leave it sharing the global null data.
+	else { _requestBuffer.clear(); _requestBuffer.detach(); forgetRequest(); } // Never leave it sharing the global null data.
 
 	_requestHeadersRef.clear();
 
 	if (_requestParams.capacity() > 16) _requestParams.clear();
 	else while(!_requestParams.isEmpty()) _requestParams.pop_back();
 
-	if (_requestContent.size() > 0)	_requestContent.data_ptr()->size = 0;
+	if (_requestContent.size() > 0)	setFromRawData(_requestContent, "", 0, 0);
 
 	if (_responseConnectionKeepAlive)
 	{
-- 
2.43.0


From 41a4bb21e994aa7fdfba1d1d026dd20bb4e41585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 11/76] fix: initialize the reported response status and
 content length

---
 pillowcore/HttpConnection.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 47b3fe5..4f82f47 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -135,7 +135,7 @@ namespace Pillow
 }
 
 Pillow::HttpConnectionPrivate::HttpConnectionPrivate(HttpConnection *connection)
-	: q_ptr(connection), _state(Pillow::HttpConnection::Uninitialized), _inputDevice(0), _outputDevice(0), _nestedDispatches(0)
+	: q_ptr(connection), _state(Pillow::HttpConnection::Uninitialized), _inputDevice(0), _outputDevice(0), _responseStatusCode(0), _responseContentLength(-1), _responseContentBytesSent(0), _nestedDispatches(0)
 {
 	// Detach bytearrays we're going to write to from global shared null as we'll be thinkering with their internal data with the assumption that they are never shared.
 	_requestBuffer.detach();
@@ -155,6 +155,8 @@ inline void Pillow::HttpConnectionPrivate::initialize()
 	_requestHeadersRef.clear();
 	if (_requestParams.capacity() > 16) _requestParams.clear();
 	else while(!_requestParams.isEmpty()) _requestParams.pop_back();
+	_responseStatusCode = 0;
+	_responseContentLength = -1;
 
 	// Enter the initial working state and schedule processing of any data already available on the device.
 	transitionToReceivingHeaders();
@@ -311,6 +313,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToSendingHeaders()
 	setFromRawData(_requestContent, _requestBuffer.constData(), static_cast<int>(_parser.body_start), _requestContentLength);
 
 	// Reset our known information about the response.
+	_responseStatusCode = 0;       // No status sent yet.
 	_responseContentLength = -1;   // The response content-length is initially unknown.
 	_responseContentBytesSent = 0; // No content bytes transfered yet.
 	_responseConnectionKeepAlive = true;
-- 
2.43.0


From 89d70303d070291a01a3024dead98cef1f1e5153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 12/76] fix: only percent-decode sequences of two hexadecimal
 digits

---
 pillowcore/ByteArrayHelpers.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pillowcore/ByteArrayHelpers.h b/pillowcore/ByteArrayHelpers.h
index f73f237..5fd3112 100644
--- a/pillowcore/ByteArrayHelpers.h
+++ b/pillowcore/ByteArrayHelpers.h
@@ -200,13 +200,18 @@ namespace Pillow
 			return 0;
 		}
 
+		inline bool isHex(const char c)
+		{
+			return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
+		}
+
 		inline int percentDecodeInPlace(char* data, int size)
 		{
 			const char* inData = data;
 			const char* inDataE = data + size;
 			while (inData < inDataE)
 			{
-				if (inData[0] == '%' && inData + 2 < inDataE)
+				if (inData[0] == '%' && inData + 2 < inDataE && isHex(inData[1]) && isHex(inData[2]))
 				{
 					// Percent-encoded sequence.
 					*data = static_cast<char>(unhex(inData[1]) << 4 | unhex(inData[2]));
-- 
2.43.0


From f8d10eb3b247a635d22a85b290b7a68abeb9741f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 13/76] fix: flush encrypted data before closing TLS
 connections

---
 pillowcore/HttpConnection.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 4f82f47..1dfde1b 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -9,6 +9,9 @@
 #include <QtCore/QStringBuilder>
 #include <QtNetwork/QTcpSocket>
 #include <QtNetwork/QLocalSocket>
+#if !defined(PILLOW_NO_SSL) && !defined(QT_NO_SSL)
+#include <QtNetwork/QSslSocket>
+#endif // !defined(PILLOW_NO_SSL) && !defined(QT_NO_SSL)
 #include <QtCore/QVarLengthArray>
 
 //
@@ -118,6 +121,7 @@ namespace Pillow
 		void transitionToCompleted();
 		void flush();
 		void drain();
+		bool hasBytesToFlush() const;
 		void transitionToFlushing();
 		void transitionToClosed();
 		void writeRequestErrorResponse(int statusCode = 400); // Used internally when an error happens while receiving a request. It sends an error response to the client and closes the connection right away.
@@ -406,7 +410,17 @@ inline void Pillow::HttpConnectionPrivate::drain()
 {
 	if (_state != Pillow::HttpConnection::Flushing) return;
 	flush();
-	if (_outputDevice != 0 && _outputDevice->bytesToWrite() == 0) transitionToClosed();
+	if (_outputDevice != 0 && !hasBytesToFlush()) transitionToClosed();
+}
+
+inline bool Pillow::HttpConnectionPrivate::hasBytesToFlush() const
+{
+	if (_outputDevice->bytesToWrite() > 0) return true;
+#if !defined(PILLOW_NO_SSL) && !defined(QT_NO_SSL)
+	// An ssl socket considers data written as soon as it is encrypted.
+	if (QSslSocket* sslSocket = qobject_cast<QSslSocket*>(_outputDevice)) return sslSocket->encryptedBytesToWrite() > 0;
+#endif // !defined(PILLOW_NO_SSL) && !defined(QT_NO_SSL)
+	return false;
 }
 
 inline void Pillow::HttpConnectionPrivate::transitionToFlushing()
@@ -418,7 +432,13 @@ inline void Pillow::HttpConnectionPrivate::transitionToFlushing()
 
 	drain(); // Will transition to closed also if there was no data at all to flush.
 	if (_state == Pillow::HttpConnection::Flushing) // A first flush was not enough. Schedule more flushes.
+	{
 		QObject::connect(_outputDevice, SIGNAL(bytesWritten(qint64)), q_ptr, SLOT(drain()));
+#if !defined(PILLOW_NO_SSL) && !defined(QT_NO_SSL)
+		if (qobject_cast<QSslSocket*>(_outputDevice))
+			QObject::connect(_outputDevice, SIGNAL(encryptedBytesWritten(qint64)), q_ptr, SLOT(drain()));
+#endif // !defined(PILLOW_NO_SSL) && !defined(QT_NO_SSL)
+	}
 }
 
 inline void Pillow::HttpConnectionPrivate::transitionToClosed()
-- 
2.43.0


From 472c829ede2afcb038160eb2ea020f176b4954f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 14/76] fix: free the private data of local servers

---
 pillowcore/HttpServer.cpp | 5 +++++
 pillowcore/HttpServer.h   | 1 +
 2 files changed, 6 insertions(+)

diff --git a/pillowcore/HttpServer.cpp b/pillowcore/HttpServer.cpp
index 395c2dc..36fd12f 100644
--- a/pillowcore/HttpServer.cpp
+++ b/pillowcore/HttpServer.cpp
@@ -130,6 +130,11 @@ HttpLocalServer::HttpLocalServer(const QString& serverName, QObject *parent /*=
 		qWarning() << QString("HttpLocalServer::HttpLocalServer: could not bind to %1 for listening: %2").arg(serverName).arg(errorString());
 }
 
+HttpLocalServer::~HttpLocalServer()
+{
+	delete d_ptr;
+}
+
 void HttpLocalServer::this_newConnection()
 {
 	QIODevice* device = nextPendingConnection();
diff --git a/pillowcore/HttpServer.h b/pillowcore/HttpServer.h
index 3af7276..3a8ad8a 100644
--- a/pillowcore/HttpServer.h
+++ b/pillowcore/HttpServer.h
@@ -67,6 +67,7 @@ namespace Pillow
 	public:
 		HttpLocalServer(QObject* parent = 0);
 		HttpLocalServer(const QString& serverName, QObject *parent = 0);
+		~HttpLocalServer();
 
 	signals:
 		void requestReady(Pillow::HttpConnection* connection); // There is a request ready to be handled on this connection.
-- 
2.43.0


From d551de38c3db3884a54ec7595a4ec583c77af8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 15/76] fix: do not serve files of sibling directories sharing
 the public path as a prefix

---
 pillowcore/HttpHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index 6fa9dfc..fafc742 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -284,7 +284,7 @@ bool HttpHandlerFile::handleRequest(Pillow::HttpConnection *connection)
 	{
 		return false;
 	}
-	else if (!resultPathInfo.canonicalFilePath().startsWith(_publicPath))
+	else if (!resultPathInfo.canonicalFilePath().startsWith(_publicPath.endsWith('/') ? _publicPath : _publicPath + '/'))
 	{
 		return false; // Somebody tried to use some ".." or has followed symlinks that escaped out of the public path.
 	}
-- 
2.43.0


From 617a0d6e3ccccb1d3437e682830f82d6511d2102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:59 +0000
Subject: [PATCH 16/76] fix: do not leave a file transfer behind a response
 that ended with its headers

---
 pillowcore/HttpHandler.cpp | 21 +++++++++++++++++----
 pillowcore/HttpHandler.h   |  3 +++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index fafc742..acf2162 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -325,12 +325,14 @@ bool HttpHandlerFile::handleRequest(Pillow::HttpConnection *connection)
 		{
 			// The file exceeds the buffer size and must be sent incrementally. Do send the headers right away.
 			headers << HttpHeader("Content-Length", QByteArray::number(file->size()));
-			connection->writeHeaders(200, headers);
 
+			// The transfer must be there before the headers are written, because the response may already end with them (HEAD, client gone).
 			HttpHandlerFileTransfer* transfer = new HttpHandlerFileTransfer(file, connection, bufferSize());
 			file->setParent(transfer);
 			//transfer->setParent(this);
 			connect(transfer, SIGNAL(finished()), transfer, SLOT(deleteLater()));
+
+			connection->writeHeaders(200, headers);
 			transfer->writeNextPayload();
 		}
 	}
@@ -352,10 +354,21 @@ HttpHandlerFileTransfer::HttpHandlerFileTransfer(QIODevice *sourceDevice, HttpCo
 	}
 
 	connect(sourceDevice, SIGNAL(destroyed()), this, SLOT(deleteLater()));
-	connect(_connection, SIGNAL(requestCompleted(Pillow::HttpConnection*)), this, SLOT(deleteLater()));
-	connect(_connection, SIGNAL(closed(Pillow::HttpConnection*)), this, SLOT(deleteLater()));
+	connect(_connection, SIGNAL(requestCompleted(Pillow::HttpConnection*)), this, SLOT(stop()));
+	connect(_connection, SIGNAL(closed(Pillow::HttpConnection*)), this, SLOT(stop()));
 	connect(_connection, SIGNAL(destroyed()), this, SLOT(deleteLater()));
-	connect(_connection->outputDevice(), SIGNAL(bytesWritten(qint64)), this, SLOT(writeNextPayload()), Qt::QueuedConnection);
+
+	if (_connection->outputDevice() != NULL)
+		connect(_connection->outputDevice(), SIGNAL(bytesWritten(qint64)), this, SLOT(writeNextPayload()), Qt::QueuedConnection);
+	else
+		stop(); // The connection is already closed.
+}
+
+void HttpHandlerFileTransfer::stop()
+{
+	// The connection may go on with another request before this object gets deleted.
+	_connection = NULL;
+	deleteLater();
 }
 
 void HttpHandlerFileTransfer::writeNextPayload()
diff --git a/pillowcore/HttpHandler.h b/pillowcore/HttpHandler.h
index 5f26961..64ecfb1 100644
--- a/pillowcore/HttpHandler.h
+++ b/pillowcore/HttpHandler.h
@@ -208,6 +208,9 @@ namespace Pillow
 	public:
 		HttpHandlerFileTransfer(QIODevice* sourceDevice, Pillow::HttpConnection* connection, int bufferSize = HttpHandlerFile::DefaultBufferSize);
 
+	private slots:
+		void stop();
+
 	public slots:
 		void writeNextPayload();
 
-- 
2.43.0


From 03bc045870a1bc0db4c5840dd6425d9348cecdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:32 +0000
Subject: [PATCH 17/76] fix: give route parameters following a splat their own
 value

---
 pillowcore/HttpHandlerSimpleRouter.cpp | 29 +++++++-------------------
 1 file changed, 7 insertions(+), 22 deletions(-)

diff --git a/pillowcore/HttpHandlerSimpleRouter.cpp b/pillowcore/HttpHandlerSimpleRouter.cpp
index 6a7363c..0a1b3a6 100644
--- a/pillowcore/HttpHandlerSimpleRouter.cpp
+++ b/pillowcore/HttpHandlerSimpleRouter.cpp
@@ -192,32 +192,17 @@ QRegExp Pillow::HttpHandlerSimpleRouter::pathToRegExp(const QString &p, QStringL
 {
 	QString path = p;
 
-	QRegExp paramRegex(":(\\w+)"); QString paramReplacement("([\\w_-]+)");
+	// Replace ":name" parameters and "*name" splats in one pass, so that the names are in the same order as the captures.
+	QRegExp tokenRegex("([:*])(\\w+)"); QString paramReplacement("([\\w_-]+)"), splatReplacement("(.*)");
 	QStringList paramNames;
 	int pos = 0;
-	while (pos >= 0)
+	while ((pos = tokenRegex.indexIn(path, pos)) >= 0)
 	{
-		pos = paramRegex.indexIn(path, pos);
-		if (pos >= 0)
-		{
-			paramNames << paramRegex.cap(1);
-			pos += paramRegex.matchedLength();
-		}
-	}
-	path.replace(paramRegex, paramReplacement);
-
-	QRegExp splatRegex("\\*(\\w+)"); QString splatReplacement("(.*)");
-	pos = 0;
-	while (pos >= 0)
-	{
-		pos = splatRegex.indexIn(path, pos);
-		if (pos >= 0)
-		{
-			paramNames << splatRegex.cap(1);
-			pos += splatRegex.matchedLength();
-		}
+		paramNames << tokenRegex.cap(2);
+		const QString& replacement = tokenRegex.cap(1) == ":" ? paramReplacement : splatReplacement;
+		path.replace(pos, tokenRegex.matchedLength(), replacement);
+		pos += replacement.length();
 	}
-	path.replace(splatRegex, splatReplacement);
 
 	if (outParamNames)
 		*outParamNames = paramNames;
-- 
2.43.0


From ae6a4e98b43cbc9172b966fc4c4ea33600c7df9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 18/76] fix: find route target methods given with a non
 normalized signature

---
 pillowcore/HttpHandlerSimpleRouter.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pillowcore/HttpHandlerSimpleRouter.cpp b/pillowcore/HttpHandlerSimpleRouter.cpp
index 0a1b3a6..7c015b6 100644
--- a/pillowcore/HttpHandlerSimpleRouter.cpp
+++ b/pillowcore/HttpHandlerSimpleRouter.cpp
@@ -137,13 +137,12 @@ void HttpHandlerSimpleRouter::addRoute(const QByteArray& method, const QString&
 		return;
 	}
 
-	if (member[0] == '1')
+	if (member[0] == '0' || member[0] == '1')
 	{
-		// This is a slot name produced with the SLOT() macro, skip the leading id.
+		// This is a method or slot name produced with the METHOD() or SLOT() macro, skip the leading id.
 		member++;
 	}
-	int methodIndex = object->metaObject()->indexOfSlot(member);
-	if (methodIndex == -1) object->metaObject()->indexOfMethod(member);
+	int methodIndex = object->metaObject()->indexOfMethod(QMetaObject::normalizedSignature(member));
 
 	if (methodIndex == -1)
 	{
-- 
2.43.0


From 441458a25348ee553191af29937e8137f2bef163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:36 +0000
Subject: [PATCH 19/76] fix: write truthful log entries for any request text
 and for reused connections

---
 pillowcore/HttpHandler.cpp | 102 ++++++++++++++++++++++---------------
 pillowcore/HttpHandler.h   |   7 +--
 2 files changed, 64 insertions(+), 45 deletions(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index acf2162..7c0c06d 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -131,23 +131,52 @@ HttpHandlerLog::HttpHandlerLog(QIODevice *device, QObject *parent)
 {
 }
 
+// What is remembered about the latest request of a connection. The connection itself may already be
+// receiving its next request, or be closed, when it is time to write the log entry.
+struct HttpHandlerLog::Entry
+{
+	QElapsedTimer timer;
+	bool pending; // The request was not completed yet.
+	bool closed; // The connection was closed since.
+	QByteArray remoteAddress, method, uri, httpVersion;
+};
+
 HttpHandlerLog::~HttpHandlerLog()
 {
-	foreach (QElapsedTimer* timer, _requestTimerMap)
-		delete timer;
+	foreach (Entry* entry, _entries)
+		delete entry;
+}
+
+static QByteArray formatLogEntry(const char* prefix, const QByteArray& remoteAddress, const QByteArray& method, const QByteArray& uri, const QByteArray& httpVersion, const QByteArray& result)
+{
+	// Concatenate the bytes as they were received: they may well hold placeholder lookalikes (%1) or not be valid utf-8.
+	return QByteArray(prefix) + remoteAddress + " - - [" + QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss").toUtf8() + "] \""
+			+ method + ' ' + uri + ' ' + httpVersion + "\" " + result;
+}
+
+static QByteArray formatLogResult(HttpConnection* connection, qint64 elapsed)
+{
+	return QByteArray::number(connection->responseStatusCode()) + ' ' + QByteArray::number(connection->responseContentLength()) + ' ' + QByteArray::number(elapsed / 1000.0, 'f', 3);
 }
 
 bool HttpHandlerLog::handleRequest(Pillow::HttpConnection *connection)
 {
-	QElapsedTimer* timer = _requestTimerMap.value(connection, NULL);
-	if (timer == NULL)
+	Entry* entry = _entries.value(connection, NULL);
+	if (entry == NULL)
 	{
-		timer = _requestTimerMap[connection] = new QElapsedTimer();
+		entry = _entries[connection] = new Entry();
+		connect(connection, SIGNAL(requestReady(Pillow::HttpConnection*)), this, SLOT(requestReady(Pillow::HttpConnection*)));
 		connect(connection, SIGNAL(requestCompleted(Pillow::HttpConnection*)), this, SLOT(requestCompleted(Pillow::HttpConnection*)));
 		connect(connection, SIGNAL(closed(Pillow::HttpConnection*)), this, SLOT(requestClosed(Pillow::HttpConnection*)));
 		connect(connection, SIGNAL(destroyed(QObject*)), this, SLOT(requestDestroyed(QObject*)));
 	}
-	timer->start();
+	entry->timer.start();
+	entry->pending = true;
+	entry->closed = false;
+	entry->remoteAddress = connection->remoteAddress().toString().toUtf8();
+	entry->method = QByteArray(connection->requestMethod().constData(), connection->requestMethod().size());
+	entry->uri = QByteArray(connection->requestUri().constData(), connection->requestUri().size());
+	entry->httpVersion = QByteArray(connection->requestHttpVersion().constData(), connection->requestHttpVersion().size());
 
 	if (_mode == LogCompletedRequests)
 	{
@@ -155,12 +184,7 @@ bool HttpHandlerLog::handleRequest(Pillow::HttpConnection *connection)
 	}
 	else if (_mode == TraceRequests)
 	{
-		QString logEntry = QString("[BEGIN] %1 - - [%2] \"%3 %4 %5\" - - -")
-				.arg(connection->remoteAddress().toString())
-				.arg(QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"))
-				.arg(QString(connection->requestMethod())).arg(QString(connection->requestUri())).arg(QString(connection->requestHttpVersion()));
-
-		log(logEntry);
+		log(formatLogEntry("[BEGIN] ", entry->remoteAddress, entry->method, entry->uri, entry->httpVersion, "- - -"));
 	}
 
 	return false;
@@ -168,56 +192,50 @@ bool HttpHandlerLog::handleRequest(Pillow::HttpConnection *connection)
 
 void HttpHandlerLog::requestCompleted(Pillow::HttpConnection *connection)
 {
-	QElapsedTimer* timer = _requestTimerMap.value(connection, NULL);
-	if (timer)
+	Entry* entry = _entries.value(connection, NULL);
+	if (entry && entry->pending)
 	{
-		const char* formatString = (_mode == LogCompletedRequests) ? "%1 - - [%2] \"%3 %4 %5\" %6 %7 %8" : "[ END ] %1 - - [%2] \"%3 %4 %5\" %6 %7 %8";
-
-		qint64 elapsed = timer->elapsed();
-		QString logEntry = QString(formatString)
-				.arg(connection->remoteAddress().toString())
-				.arg(QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"))
-				.arg(QString(connection->requestMethod())).arg(QString(connection->requestUri())).arg(QString(connection->requestHttpVersion()))
-				.arg(connection->responseStatusCode()).arg(connection->responseContentLength())
-				.arg(elapsed / 1000.0, 3, 'f', 3);
-
-		log(logEntry);
+		entry->pending = false;
+		log(formatLogEntry((_mode == LogCompletedRequests) ? "" : "[ END ] ", entry->remoteAddress, entry->method, entry->uri, entry->httpVersion, formatLogResult(connection, entry->timer.elapsed())));
 	}
 }
 
 void HttpHandlerLog::requestClosed(HttpConnection *connection)
 {
-	QElapsedTimer* timer = _requestTimerMap.value(connection, NULL);
-	if (timer && _mode == TraceRequests)
+	Entry* entry = _entries.value(connection, NULL);
+	if (entry && !entry->closed)
 	{
-		const char* formatString = "[CLOSE] %1 - - [%2] \"%3 %4 %5\" %6 %7 %8";
-
-		qint64 elapsed = timer->elapsed();
-		QString logEntry = QString(formatString)
-				.arg(connection->remoteAddress().toString())
-				.arg(QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"))
-				.arg(QString(connection->requestMethod())).arg(QString(connection->requestUri())).arg(QString(connection->requestHttpVersion()))
-				.arg(connection->responseStatusCode()).arg(connection->responseContentLength())
-				.arg(elapsed / 1000.0, 3, 'f', 3);
+		entry->closed = true;
+		if (_mode == TraceRequests)
+			log(formatLogEntry("[CLOSE] ", entry->remoteAddress, entry->method, entry->uri, entry->httpVersion, formatLogResult(connection, entry->timer.elapsed())));
+	}
+}
 
-		log(logEntry);
+void HttpHandlerLog::requestReady(HttpConnection *connection)
+{
+	// A connection that was closed and is receiving requests again is being reused for another client,
+	// whose requests do not necessarily go through this handler.
+	Entry* entry = _entries.value(connection, NULL);
+	if (entry && entry->closed)
+	{
+		disconnect(connection, 0, this, 0);
+		requestDestroyed(connection);
 	}
 }
 
 void HttpHandlerLog::requestDestroyed(QObject *r)
 {
 	HttpConnection* connection = static_cast<HttpConnection*>(r);
-	delete _requestTimerMap.value(connection, NULL);
-	_requestTimerMap.remove(connection);
+	delete _entries.take(connection);
 }
 
-void HttpHandlerLog::log(const QString &entry)
+void HttpHandlerLog::log(const QByteArray &entry)
 {
 	if (_device == NULL)
-		qDebug() << qPrintable(entry);
+		qDebug() << entry.constData();
 	else
 	{
-		_device->write(entry.toUtf8());
+		_device->write(entry);
 		_device->write("\n", 1);
 	}
 }
diff --git a/pillowcore/HttpHandler.h b/pillowcore/HttpHandler.h
index 64ecfb1..2dbfb7c 100644
--- a/pillowcore/HttpHandler.h
+++ b/pillowcore/HttpHandler.h
@@ -18,7 +18,6 @@
 #endif // Q_COMPILER_LAMBDA
 
 class QIODevice;
-class QElapsedTimer;
 
 namespace Pillow
 {
@@ -157,13 +156,15 @@ namespace Pillow
 		virtual bool handleRequest(Pillow::HttpConnection* connection);
 
 	private slots:
+		void requestReady(Pillow::HttpConnection* connection);
 		void requestCompleted(Pillow::HttpConnection* connection);
 		void requestClosed(Pillow::HttpConnection* connection);
 		void requestDestroyed(QObject* connection);
-		void log(const QString& entry);
+		void log(const QByteArray& entry);
 
 	private:
-		QHash<Pillow::HttpConnection*, QElapsedTimer*> _requestTimerMap;
+		struct Entry;
+		QHash<Pillow::HttpConnection*, Entry*> _entries;
 		Mode _mode;
 		QPointer<QIODevice> _device;
 	};
-- 
2.43.0


From 76cf6089724c96d40c6b6abc227be760dfe08b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 20/76] fix: report the status code that was sent instead of
 the invalid one asked for

---
 pillowcore/HttpConnection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 1dfde1b..6b95342 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -514,7 +514,8 @@ inline bool Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 	{
 		// Huh? Trying to send a bad status code...
 		qWarning() << "HttpConnection::writeHeaders:" << statusCode << "is not a valid Http status code. Using 500 Internal Server Error instead.";
-		statusCodeAndMessage = HttpProtocol::StatusCodes::getStatusCodeAndMessage(500); // Internal server error.
+		statusCode = 500; // Internal server error.
+		statusCodeAndMessage = HttpProtocol::StatusCodes::getStatusCodeAndMessage(statusCode);
 	}
 	_responseStatusCode = statusCode;
 
-- 
2.43.0


From 4ed55445937e88e7c939fe6f253b81ea85c0bbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 21/76] fix: do not share cookies between the clients of a
 proxy

---
 pillowcore/HttpHandlerProxy.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 7ed6b73..57dc843 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -36,6 +36,9 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 	if (!request->requestFragment().isEmpty()) targetUrl.setEncodedFragment(request->requestFragment());
 
 	QNetworkRequest proxiedRequest(targetUrl);
+	// Cookies belong to each client: relay them as they are instead of having the manager keep and send its own.
+	proxiedRequest.setAttribute(QNetworkRequest::CookieLoadControlAttribute, QNetworkRequest::Manual);
+	proxiedRequest.setAttribute(QNetworkRequest::CookieSaveControlAttribute, QNetworkRequest::Manual);
 	foreach (const Pillow::HttpHeader& header, request->requestHeaders())
 		proxiedRequest.setRawHeader(header.first, header.second);
 
-- 
2.43.0


From f03544f7cf0a18455ebe2cfb4053e636abb142f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 22/76] fix: relay repeated request headers through the proxy

---
 pillowcore/HttpHandlerProxy.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 57dc843..8a9c18b 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -40,7 +40,13 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 	proxiedRequest.setAttribute(QNetworkRequest::CookieLoadControlAttribute, QNetworkRequest::Manual);
 	proxiedRequest.setAttribute(QNetworkRequest::CookieSaveControlAttribute, QNetworkRequest::Manual);
 	foreach (const Pillow::HttpHeader& header, request->requestHeaders())
-		proxiedRequest.setRawHeader(header.first, header.second);
+	{
+		// Repeated headers have to be merged since setting one again would replace its value.
+		if (proxiedRequest.hasRawHeader(header.first))
+			proxiedRequest.setRawHeader(header.first, proxiedRequest.rawHeader(header.first) + (qstricmp(header.first, "cookie") == 0 ? "; " : ", ") + header.second);
+		else
+			proxiedRequest.setRawHeader(header.first, header.second);
+	}
 
 	createPipe(request, createProxiedReply(request, proxiedRequest));
 
-- 
2.43.0


From 98a74a224134fcdb4e150c5e79c7aa4105abb0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 23/76] fix: do not let the proxy decompress responses on
 behalf of its clients

---
 pillowcore/HttpHandlerProxy.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 8a9c18b..b151029 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -48,6 +48,11 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 			proxiedRequest.setRawHeader(header.first, header.second);
 	}
 
+	// Unless told otherwise, the manager would accept compressed content and decompress it behind the back of the client,
+	// making it disagree with the response headers.
+	if (!proxiedRequest.hasRawHeader("Accept-Encoding"))
+		proxiedRequest.setRawHeader("Accept-Encoding", "identity");
+
 	createPipe(request, createProxiedReply(request, proxiedRequest));
 
 	return true;
-- 
2.43.0


From a551fdee4db55e5f5733f881a75e1c8e3fd76b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 24/76] fix: copy the content of proxied requests that may
 outlive their client

---
 pillowcore/HttpHandlerProxy.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index b151029..fa34c27 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -63,7 +63,9 @@ QNetworkReply * Pillow::HttpHandlerProxy::createProxiedReply(Pillow::HttpConnect
 	QBuffer* requestContentBuffer = NULL;
 	if (request->requestContent().size() > 0)
 	{
-		requestContentBuffer = new QBuffer(&(const_cast<QByteArray&>(request->requestContent())));
+		// The proxied request may outlive the client request: use a copy.
+		requestContentBuffer = new QBuffer();
+		requestContentBuffer->setData(request->requestContent().constData(), request->requestContent().size());
 		requestContentBuffer->open(QIODevice::ReadOnly);
 	}
 
-- 
2.43.0


From c33c1384a3ddfdca6f1c48e4fdc192d2ce7864b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 25/76] fix: do not wait for the content of proxied responses
 to HEAD requests

---
 pillowcore/HttpHandlerProxy.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index fa34c27..3429f4e 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -69,7 +69,9 @@ QNetworkReply * Pillow::HttpHandlerProxy::createProxiedReply(Pillow::HttpConnect
 		requestContentBuffer->open(QIODevice::ReadOnly);
 	}
 
-	QNetworkReply* proxiedReply = _networkAccessManager->sendCustomRequest(proxiedRequest, request->requestMethod(), requestContentBuffer);
+	// A custom "HEAD" request would have the manager wait for content that never comes.
+	QNetworkReply* proxiedReply = (request->requestMethod() == "HEAD") ? _networkAccessManager->head(proxiedRequest) :
+		_networkAccessManager->sendCustomRequest(proxiedRequest, request->requestMethod(), requestContentBuffer);
 
 	if (requestContentBuffer) requestContentBuffer->setParent(proxiedReply);
 
-- 
2.43.0


From 26d9d4a803cf6d36ad84d55eada86fdc9e62e655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 26/76] fix: relay each of several proxied Set-Cookie headers

---
 pillowcore/HttpHandlerProxy.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 3429f4e..12fd89c 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -135,7 +135,11 @@ void Pillow::HttpHandlerProxyPipe::sendHeaders()
 	QList<QPair<QByteArray, QByteArray> > headerList = _proxiedReply->rawHeaderPairs();
 	Pillow::HttpHeaderCollection headers; headers.reserve(headerList.size());
 	for (int i = 0, iE = headerList.size(); i < iE; ++i)
-		headers << headerList.at(i);
+	{
+		// Values that can not be merged into a single header (cookies) are separated by line feeds.
+		foreach (const QByteArray& value, headerList.at(i).second.split('\n'))
+			headers << Pillow::HttpHeader(headerList.at(i).first, value);
+	}
 	_request->writeHeaders(statusCode, headers);
 }
 
-- 
2.43.0


From 177986120e1bf029c54dde0d804e057523708173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 27/76] fix: end proxied responses properly, whether they
 failed or carry an error status

---
 pillowcore/HttpHandlerProxy.cpp | 39 +++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 12fd89c..bf42498 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -154,27 +154,42 @@ void Pillow::HttpHandlerProxyPipe::proxiedReply_readyRead()
 	if (!_broken) pump(_proxiedReply->readAll());
 }
 
+// Tells whether the reply failed, as opposed to being a complete response, possibly one with an error status.
+static bool hasFailed(QNetworkReply* reply)
+{
+	if (reply->error() == QNetworkReply::NoError) return false;
+	if (reply->attribute(QNetworkRequest::HttpStatusCodeAttribute).toInt() < 400) return true;
+	switch (reply->error())
+	{
+	case QNetworkReply::ProxyAuthenticationRequiredError: // This is also what a 407 status gets reported as.
+	case QNetworkReply::ProtocolInvalidOperationError:
+		return false;
+	default:
+		return reply->error() < QNetworkReply::ContentAccessDenied || reply->error() == QNetworkReply::ProtocolUnknownError || reply->error() == QNetworkReply::ProtocolFailure;
+	}
+}
+
 void Pillow::HttpHandlerProxyPipe::proxiedReply_finished()
 {
-	if (_proxiedReply->error() == QNetworkReply::NoError)
+	if (_broken) return;
+
+	if (!hasFailed(_proxiedReply))
 	{
 		sendHeaders(); // Make sure headers have been sent; can cause the pipe to tear down.
 
+		// The client request will still be in this state if the content-length was not specified.
 		if (!_broken && _request->state() == Pillow::HttpConnection::SendingContent)
-		{
-			// The client request will still be in this state if the content-length was not specified. We must
-			// close the connection to indicate the end of the content stream.
-			_request->close();
-		}
+			_request->endContent();
 	}
-	else
+	else if (_request->state() == Pillow::HttpConnection::SendingHeaders)
 	{
-		if (!_broken && _request->state() == Pillow::HttpConnection::SendingHeaders)
-		{
-			// Finishing before sending headers means that we have a network or transport error. Let the client know about this.
-			_request->writeResponse(503);
-		}
+		// Finishing before sending headers means that we have a network or transport error. Let the client know about this.
+		_request->writeResponse(503);
 	}
+
+	// The client must not take an incomplete response for a complete one.
+	if (!_broken && _request->state() == Pillow::HttpConnection::SendingContent)
+		_request->close();
 }
 
 //
-- 
2.43.0


From 6c639c34cbed9dfb0c48c8ee5d3d5afdd2967dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 28/76] fix: do not encode percent-encoded paths again when
 proxying

---
 pillowcore/HttpHandlerProxy.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index bf42498..bc9735e 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -31,7 +31,11 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 	if (_proxiedUrl.isEmpty()) return false;
 
 	QUrl targetUrl = _proxiedUrl;
+#if QT_VERSION >= 0x050000
+	targetUrl.setPath(QString::fromUtf8(request->requestPath()), QUrl::TolerantMode); // Qt 5's setEncodedPath() encodes "%" again.
+#else
 	targetUrl.setEncodedPath(request->requestPath());
+#endif
 	if (!request->requestQueryString().isEmpty()) targetUrl.setEncodedQuery(request->requestQueryString());
 	if (!request->requestFragment().isEmpty()) targetUrl.setEncodedFragment(request->requestFragment());
 
-- 
2.43.0


From 69242b386423663312b963feed8d3132ea5f3a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 29/76] fix: copy the method and headers of proxied requests
 that may outlive their client

---
 pillowcore/HttpHandlerProxy.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index bc9735e..978020e 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -43,8 +43,11 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 	// Cookies belong to each client: relay them as they are instead of having the manager keep and send its own.
 	proxiedRequest.setAttribute(QNetworkRequest::CookieLoadControlAttribute, QNetworkRequest::Manual);
 	proxiedRequest.setAttribute(QNetworkRequest::CookieSaveControlAttribute, QNetworkRequest::Manual);
-	foreach (const Pillow::HttpHeader& header, request->requestHeaders())
+	foreach (const Pillow::HttpHeader& requestHeader, request->requestHeaders())
 	{
+		// The proxied request may outlive the client request, whose headers refer to its buffer: use copies.
+		const Pillow::HttpHeader header(QByteArray(requestHeader.first.constData(), requestHeader.first.size()), QByteArray(requestHeader.second.constData(), requestHeader.second.size()));
+
 		// Repeated headers have to be merged since setting one again would replace its value.
 		if (proxiedRequest.hasRawHeader(header.first))
 			proxiedRequest.setRawHeader(header.first, proxiedRequest.rawHeader(header.first) + (qstricmp(header.first, "cookie") == 0 ? "; " : ", ") + header.second);
@@ -75,7 +78,7 @@ QNetworkReply * Pillow::HttpHandlerProxy::createProxiedReply(Pillow::HttpConnect
 
 	// A custom "HEAD" request would have the manager wait for content that never comes.
 	QNetworkReply* proxiedReply = (request->requestMethod() == "HEAD") ? _networkAccessManager->head(proxiedRequest) :
-		_networkAccessManager->sendCustomRequest(proxiedRequest, request->requestMethod(), requestContentBuffer);
+		_networkAccessManager->sendCustomRequest(proxiedRequest, QByteArray(request->requestMethod().constData(), request->requestMethod().size()), requestContentBuffer);
 
 	if (requestContentBuffer) requestContentBuffer->setParent(proxiedReply);
 
-- 
2.43.0


From 5ec4552f576f3f7fcfc57eece74672669a33d994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:44 +0000
Subject: [PATCH 30/76] fix: do not leak trailers and cut headers into the next
 response

---
 pillowcore/HttpClient.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 921fe23..9c5559d 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -241,6 +241,9 @@ void Pillow::HttpResponseParser::clear()
 	http_parser_init(&parser, HTTP_RESPONSE);
 	while (!_headers.isEmpty()) _headers.pop_back();
 	_content.clear();
+	_field.clear();
+	_value.clear();
+	_lastWasValue = false;
 
 	if (_parsing) pause(); // clear() got called from a callback. gracefully recover by pausing the parser.
 }
@@ -255,6 +258,8 @@ void Pillow::HttpResponseParser::messageBegin()
 {
 	while (!_headers.isEmpty()) _headers.pop_back();
 	_content.clear();
+	_field.clear();
+	_value.clear();
 	_lastWasValue = false;
 }
 
-- 
2.43.0


From 381257dcc391069be7ed181d736e0c62af2845e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:44 +0000
Subject: [PATCH 31/76] fix: do not wait for the content of responses that
 never have any

---
 pillowcore/HttpClient.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 9c5559d..46947d1 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -309,7 +309,10 @@ int Pillow::HttpResponseParser::parser_on_headers_complete(http_parser *parser)
 	Pillow::HttpResponseParser* self = reinterpret_cast<Pillow::HttpResponseParser*>(parser->data);
 	self->pushHeader();
 	self->headersComplete();
-	return 0;
+
+	// These responses never have content, whatever their headers say. Returning 1 tells the parser.
+	const quint16 statusCode = self->statusCode();
+	return (statusCode / 100 == 1 || statusCode == 204 || statusCode == 304) ? 1 : 0;
 }
 
 int Pillow::HttpResponseParser::parser_on_body(http_parser *parser, const char *at, size_t length)
-- 
2.43.0


From c11a1dff6f3dc5054e4ae99df3391602c30cdc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:44 +0000
Subject: [PATCH 32/76] fix: keep the content of responses that merely
 advertise an upgrade

---
 pillowcore/parser/http_parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pillowcore/parser/http_parser.c b/pillowcore/parser/http_parser.c
index 6dbabe8..b109720 100644
--- a/pillowcore/parser/http_parser.c
+++ b/pillowcore/parser/http_parser.c
@@ -1568,7 +1568,8 @@ size_t http_parser_execute (http_parser *parser,
 
 		/* Set this here so that on_headers_complete() callbacks can see it */
 		parser->upgrade =
-		  (parser->flags & F_UPGRADE || parser->method == HTTP_CONNECT);
+		  ((parser->flags & F_UPGRADE && (parser->type == HTTP_REQUEST || parser->status_code == 101)) ||
+		   (parser->type == HTTP_REQUEST && parser->method == HTTP_CONNECT));
 
 		/* Here we call the headers_complete callback. This is somewhat
 		 * different than other callbacks because if the user returns 1, we
-- 
2.43.0


From 341f4f44070bd29cdf83f1e36891093795410b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:13 +0000
Subject: [PATCH 33/76] fix: request the root path of urls without a path

---
 pillowcore/HttpClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 46947d1..0e020a3 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -662,6 +662,7 @@ void Pillow::HttpClient::sendRequest()
 	}
 
 	QByteArray uri = _request.url.encodedPath();
+	if (uri.isEmpty()) uri.append('/');
 	const QByteArray query = _request.url.encodedQuery();
 	if (!query.isEmpty()) uri.append('?').append(query);
 
-- 
2.43.0


From c306929191071d70bc1f2cd1b1997826d350e84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:13 +0000
Subject: [PATCH 34/76] fix: put brackets around IPv6 addresses in the Host
 header

---
 pillowcore/HttpClient.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 0e020a3..690c4db 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -654,6 +654,8 @@ void Pillow::HttpClient::sendRequest()
 	if (_hostHeaderValue.isEmpty())
 	{
         _hostHeaderValue = _request.url.encodedHost();
+		if (_hostHeaderValue.contains(':')) // IPv6 addresses need brackets.
+			_hostHeaderValue.prepend('[').append(']');
 		if (_request.url.port(80) != 80)
 		{
 			_hostHeaderValue.append(':');
-- 
2.43.0


From 9a9bd79195abfcaca38eb62f7fa25bf97546c749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:13 +0000
Subject: [PATCH 35/76] fix: skip any number of 100 Continue responses received
 at once

---
 pillowcore/HttpClient.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 690c4db..70c9d96 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -607,8 +607,9 @@ void Pillow::HttpClient::device_readyRead()
 			if (consumed < _buffer.size())
 			{
 				// We had multiple responses in the buffer?
-				// It was a 100 Continue since we are still response pending.
-				consumed += inject(_buffer.constData() + consumed, _buffer.size() - consumed);
+				// They were 100 Continue as long as we are still response pending.
+				while (responsePending() && !hasError() && consumed < _buffer.size())
+					consumed += inject(_buffer.constData() + consumed, _buffer.size() - consumed);
 
 				if (consumed < _buffer.size())
 				{
-- 
2.43.0


From 5ea24915708df0e14ef8abb122a333f8023b70de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:13 +0000
Subject: [PATCH 36/76] fix: do not decode a response with the leftovers of an
 interrupted one

---
 pillowcore/HttpClient.cpp | 9 ++++++++-
 pillowcore/HttpClient.h   | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 70c9d96..39f5bb6 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -359,6 +359,11 @@ Pillow::HttpClient::HttpClient(QObject *parent)
 	_keepAliveTimeoutTimer.invalidate();
 }
 
+Pillow::HttpClient::~HttpClient()
+{
+	delete _contentDecoder;
+}
+
 int Pillow::HttpClient::keepAliveTimeout() const
 {
 	return _keepAliveTimeout;
@@ -485,6 +490,8 @@ void Pillow::HttpClient::request(const Pillow::HttpClientRequest &request)
 	_request = request;
 	_responsePending = true;
 	_error = NoError;
+	delete _contentDecoder; // Left over if the previous response did not complete.
+	_contentDecoder = 0;
 	clear();
 
 	const bool isConnected = _device->state() == QAbstractSocket::ConnectedState;
@@ -704,7 +711,7 @@ void Pillow::HttpClient::headersComplete()
 			const Pillow::HttpHeader& header = _headers.at(i);
 			if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.first, Pillow::LowerCaseToken("content-encoding")))
 			{
-				if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.second, Pillow::LowerCaseToken("gzip")))
+				if (_contentDecoder == 0 && Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.second, Pillow::LowerCaseToken("gzip")))
 					_contentDecoder = new Pillow::GunzipContentTransformer();
 			}
 		}
diff --git a/pillowcore/HttpClient.h b/pillowcore/HttpClient.h
index bbf25fb..e38b6f8 100644
--- a/pillowcore/HttpClient.h
+++ b/pillowcore/HttpClient.h
@@ -174,6 +174,7 @@ namespace Pillow
 
 	public:
 		HttpClient(QObject* parent = 0);
+		~HttpClient();
 
 		// keepAliveTimeout: Maximum time, in milliseconds, for which the client will keep an established connection channel
 		//                   between requests to the same host. Use 0 to disable keep-alive.
-- 
2.43.0


From 116c437a31b9f823f20af415e1b34bfb1a989b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:13 +0000
Subject: [PATCH 37/76] fix: finish HEAD requests only once when aborted in
 headersCompleted

---
 pillowcore/HttpClient.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 39f5bb6..44f2b9e 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -698,6 +698,9 @@ void Pillow::HttpClient::headersComplete()
 
 	emit headersCompleted();
 
+	if (!responsePending())
+		return; // Aborted by one of the slots.
+
 	if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(_request.method, Pillow::LowerCaseToken("head")))
 	{
 		pause();
-- 
2.43.0


From d7812f930a0ba805e5fc71a7513959d667c21a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:13 +0000
Subject: [PATCH 38/76] fix: pass content that is not gzip through completely,
 however it is split

---
 pillowcore/HttpClient.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 44f2b9e..044d694 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -57,6 +57,9 @@ namespace Pillow
             else
                 _inflatedBuffer.clear();
 
+			if (_inflateStream.total_out == 0 && !_streamBad)
+				_inputBuffer.append(data, length); // May turn out not to be gzip. Keep it around until there is output.
+
 			_inflateStream.next_in = const_cast<unsigned char*>(reinterpret_cast<const unsigned char*>(data));
 			_inflateStream.avail_in = length;
 
@@ -82,7 +85,16 @@ namespace Pillow
                     _inflatedBuffer.data_ptr()->size = 0;
                 else
                     _inflatedBuffer.clear();
-                _inflatedBuffer.append(data, length);
+
+				if (_inputBuffer.isEmpty())
+					_inflatedBuffer.append(data, length);
+				else
+					_inflatedBuffer.append(_inputBuffer);
+				_inputBuffer.clear();
+			}
+			else if (_inflateStream.total_out > 0)
+			{
+				_inputBuffer.clear();
 			}
 
 			return _inflatedBuffer;
@@ -91,6 +103,7 @@ namespace Pillow
 	private:
 		z_stream _inflateStream;
 		QByteArray _inflatedBuffer;
+		QByteArray _inputBuffer;
 		bool _streamBad;
 	};
 #endif // PILLOW_ZLIB
-- 
2.43.0


From 158ea70f57f5a037dd83057ea78ca96998a623bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:13 +0000
Subject: [PATCH 39/76] fix: connect to another server even if the previous
 connection is still closing

---
 pillowcore/HttpClient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 044d694..98cee0b 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -525,7 +525,7 @@ void Pillow::HttpClient::request(const Pillow::HttpClientRequest &request)
             _hostHeaderValue.clear();
 
 		if (_device->state() != QAbstractSocket::UnconnectedState)
-			_device->disconnectFromHost();
+			_device->abort(); // Unlike disconnectFromHost(), always leaves the device ready to connect again.
 		_device->connectToHost(_request.url.host(), _request.url.port(80));
 	}
 }
-- 
2.43.0


From 137ce01a70f35b33e5dae4199f6d17534d4a877d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:13 +0000
Subject: [PATCH 40/76] fix: never reuse a connection with a keep-alive timeout
 of 0

---
 pillowcore/HttpClient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 98cee0b..c0c0de9 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -509,7 +509,7 @@ void Pillow::HttpClient::request(const Pillow::HttpClientRequest &request)
 
 	const bool isConnected = _device->state() == QAbstractSocket::ConnectedState;
 	const bool sameServer = _request.url.host() == previousHost && _request.url.port() == previousPort;
-	const bool keepAliveTimeoutExpired = sameServer && (_keepAliveTimeout >= 0 && _keepAliveTimeoutTimer.isValid() && _keepAliveTimeoutTimer.hasExpired(_keepAliveTimeout));
+	const bool keepAliveTimeoutExpired = sameServer && (_keepAliveTimeout == 0 || (_keepAliveTimeout > 0 && _keepAliveTimeoutTimer.isValid() && _keepAliveTimeoutTimer.hasExpired(_keepAliveTimeout)));
 	const bool reuseExistingConnection = isConnected && sameServer && !keepAliveTimeoutExpired;
 
 	if (reuseExistingConnection)
-- 
2.43.0


From 45534f5ff376a6f8019d992d21bfb122b568f18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:13 +0000
Subject: [PATCH 41/76] fix: reuse connections whether the default port is
 spelled out or not

---
 pillowcore/HttpClient.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index c0c0de9..99be93d 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -498,7 +498,7 @@ void Pillow::HttpClient::request(const Pillow::HttpClientRequest &request)
 
 	// We can reuse an active connection if the request is for the same host and port, so make note of those parameters before they are overwritten.
 	const QString previousHost = _request.url.host();
-	const int previousPort = _request.url.port();
+	const int previousPort = _request.url.port(80);
 
 	_request = request;
 	_responsePending = true;
@@ -508,7 +508,7 @@ void Pillow::HttpClient::request(const Pillow::HttpClientRequest &request)
 	clear();
 
 	const bool isConnected = _device->state() == QAbstractSocket::ConnectedState;
-	const bool sameServer = _request.url.host() == previousHost && _request.url.port() == previousPort;
+	const bool sameServer = _request.url.host() == previousHost && _request.url.port(80) == previousPort;
 	const bool keepAliveTimeoutExpired = sameServer && (_keepAliveTimeout == 0 || (_keepAliveTimeout > 0 && _keepAliveTimeoutTimer.isValid() && _keepAliveTimeoutTimer.hasExpired(_keepAliveTimeout)));
 	const bool reuseExistingConnection = isConnected && sameServer && !keepAliveTimeoutExpired;
 
-- 
2.43.0


From 7778596ef65efee62c36dc1e0986f01b80bf785a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:13 +0000
Subject: [PATCH 42/76] fix: follow redirections to relative locations

---
 pillowcore/HttpClient.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 99be93d..7d3c3a4 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -545,14 +545,14 @@ void Pillow::HttpClient::abort()
 
 void Pillow::HttpClient::followRedirection()
 {
-	if (!redirected())
+	if (!redirected() || redirectionLocation().isEmpty())
 	{
 		qWarning("Pillow::HttpClient::followRedirection(): no redirection to follow.");
 		return;
 	}
 
 	Pillow::HttpClientRequest newRequest = _request;
-	newRequest.url = QUrl::fromEncoded(redirectionLocation());
+	newRequest.url = _request.url.resolved(QUrl::fromEncoded(redirectionLocation()));
 	request(newRequest);
 }
 
-- 
2.43.0


From 1f3ed8f169e9ff9c3f340c5304721d5b3db15fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 43/76] fix: do not close an idle connection after content got
 consumed

---
 pillowcore/HttpClient.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 7d3c3a4..2613052 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -586,6 +586,9 @@ void Pillow::HttpClient::device_connected()
 
 void Pillow::HttpClient::device_readyRead()
 {
+	qint64 bytesAvailable = _device->bytesAvailable();
+	if (bytesAvailable == 0) return; // There may be nothing left by the time a delayed call from consumeContent() gets here.
+
 	if (!responsePending())
 	{
 		// Not supposed to be receiving data at this point. Just
@@ -594,9 +597,6 @@ void Pillow::HttpClient::device_readyRead()
 		return;
 	}
 
-	qint64 bytesAvailable = _device->bytesAvailable();
-	if (bytesAvailable == 0) return;
-
 	if (_buffer.capacity() < _buffer.size() + bytesAvailable)
 		_buffer.reserve(_buffer.size() + bytesAvailable);
 
-- 
2.43.0


From 8cf93d9eaea862fc44b67325ebbf0e7c8ab23682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:50 +0000
Subject: [PATCH 44/76] fix: do not lose the end of responses, nor requests
 made when one failed, as the server closes

---
 pillowcore/HttpClient.cpp | 67 ++++++++++++++++++++++++++++-----------
 pillowcore/HttpClient.h   |  4 +++
 2 files changed, 52 insertions(+), 19 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 2613052..34ca262 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -362,7 +362,7 @@ inline void Pillow::HttpResponseParser::pushHeader()
 //
 
 Pillow::HttpClient::HttpClient(QObject *parent)
-	: QObject(parent), _responsePending(false), _error(NoError), _keepAliveTimeout(-1), _contentDecoder(0)
+	: QObject(parent), _responsePending(false), _error(NoError), _pendingError(NoError), _keepAliveTimeout(-1), _contentDecoder(0)
 {
 	_device = new QTcpSocket(this);
 	connect(_device, SIGNAL(error(QAbstractSocket::SocketError)), this, SLOT(device_error(QAbstractSocket::SocketError)));
@@ -503,6 +503,7 @@ void Pillow::HttpClient::request(const Pillow::HttpClientRequest &request)
 	_request = request;
 	_responsePending = true;
 	_error = NoError;
+	_pendingError = NoError;
 	delete _contentDecoder; // Left over if the previous response did not complete.
 	_contentDecoder = 0;
 	clear();
@@ -565,18 +566,45 @@ void Pillow::HttpClient::device_error(QAbstractSocket::SocketError error)
 		return;
 	}
 
-	switch (error)
+	failLater(error == QAbstractSocket::RemoteHostClosedError ? RemoteHostClosedError : NetworkError);
+}
+
+void Pillow::HttpClient::failLater(Pillow::HttpClient::Error error)
+{
+	// The device can neither be closed nor connected again while it is signaling, and it may still hold the end of
+	// the response after its connection was closed. Handle the failure once back in the event loop.
+	_pendingError = error;
+	QTimer::singleShot(0, this, SLOT(device_failed()));
+}
+
+void Pillow::HttpClient::device_failed()
+{
+	if (!_responsePending || _pendingError == NoError)
+		return; // The request that failed has been aborted since.
+
+	if (_pendingError == RemoteHostClosedError)
 	{
-	case QAbstractSocket::RemoteHostClosedError:
-		_error = RemoteHostClosedError;
-		break;
-	default:
-		_error = NetworkError;
+		if (_device->bytesAvailable() > 0)
+		{
+			// First get what was received before the connection was closed. Comes back here as it gets read, which
+			// takes calls to consumeContent() when the size of the read buffer is limited.
+			device_readyRead();
+			return;
+		}
+
+		// The end of the connection completes the responses that have no other delimiter.
+		injectEof();
 	}
 
-	_device->close();
-	_responsePending = false;
-	emit finished();
+	if (_responsePending)
+	{
+		_error = _pendingError;
+		_responsePending = false;
+		_device->abort();
+		emit finished();
+	}
+
+	sendPendingRequest();
 }
 
 void Pillow::HttpClient::device_connected()
@@ -643,12 +671,9 @@ void Pillow::HttpClient::device_readyRead()
 		}
 
 		if (hasError()) // Re-check for error in case we injected again in the 100 Continue case above.
-		{
-			_error = ResponseInvalidError;
-			_device->close();
-			_responsePending = false;
-			emit finished();
-		}
+			failLater(ResponseInvalidError);
+		else if (_pendingError != NoError)
+			failLater(_pendingError); // There may be some more to read, or nothing left to wait for.
 	}
 
 	// Reuse the read buffer if it is not overly large.
@@ -657,15 +682,19 @@ void Pillow::HttpClient::device_readyRead()
 	else
 		_buffer.data_ptr()->size = 0;
 
-	// Response completed or got aborted in a callback.
+	// Response completed or got aborted in a callback, plus we got a new request while in callback.
+	if (!responsePending() && !_pendingRequest.method.isNull())
+		QTimer::singleShot(0, this, SLOT(sendPendingRequest())); // Not while the device is signaling.
+}
+
+void Pillow::HttpClient::sendPendingRequest()
+{
 	if (!responsePending() && !_pendingRequest.method.isNull())
 	{
-		// Plus we got a new request while in callback.
 		Pillow::HttpClientRequest r = _pendingRequest;
 		_pendingRequest = Pillow::HttpClientRequest(); // Clear it.
 		request(r);
 	}
-
 }
 
 void Pillow::HttpClient::sendRequest()
diff --git a/pillowcore/HttpClient.h b/pillowcore/HttpClient.h
index e38b6f8..202ef57 100644
--- a/pillowcore/HttpClient.h
+++ b/pillowcore/HttpClient.h
@@ -226,11 +226,14 @@ namespace Pillow
 
 	private slots:
 		void device_error(QAbstractSocket::SocketError error);
+		void device_failed();
 		void device_connected();
 		void device_readyRead();
+		void sendPendingRequest();
 
 	private:
 		void sendRequest();
+		void failLater(Error error);
 
 	protected:
 		void messageBegin();
@@ -246,6 +249,7 @@ namespace Pillow
 		Pillow::HttpResponseParser _responseParser;
 		bool _responsePending;
 		Error _error;
+		Error _pendingError; // What the pending request is about to fail with.
 		QByteArray _buffer;
 		int _keepAliveTimeout;
 		QElapsedTimer _keepAliveTimeoutTimer;
-- 
2.43.0


From 3cb32f748bd97769e8ad59ec6c0de5f0eadbd9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 45/76] fix: treat requests made from callbacks as pending
 until they are sent

---
 pillowcore/HttpClient.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 34ca262..37b739c 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -399,7 +399,7 @@ void Pillow::HttpClient::setReadBufferSize(qint64 size)
 
 bool Pillow::HttpClient::responsePending() const
 {
-	return _responsePending;
+	return _responsePending || !_pendingRequest.method.isNull();
 }
 
 Pillow::HttpClient::Error Pillow::HttpClient::error() const
@@ -438,7 +438,7 @@ QByteArray Pillow::HttpClient::consumeContent()
 	QByteArray c = _content;
 	_content = QByteArray();
 
-	if (responsePending() && _device->bytesAvailable())
+	if (_responsePending && _device->bytesAvailable())
 		QTimer::singleShot(0, this, SLOT(device_readyRead()));
 
 	return c;
@@ -481,7 +481,7 @@ void Pillow::HttpClient::request(const QByteArray &method, const QUrl &url, cons
 
 void Pillow::HttpClient::request(const Pillow::HttpClientRequest &request)
 {
-	if (_responsePending)
+	if (responsePending())
 	{
 		qWarning("Pillow::HttpClient::request: cannot send new request while another one is under way. Request pipelining is not supported.");
 		return;
@@ -535,8 +535,9 @@ void Pillow::HttpClient::abort()
 {
 	if (_device) _device->abort();
 
-	if (_responsePending)
+	if (responsePending())
 	{
+		_pendingRequest = Pillow::HttpClientRequest();
 		Pillow::HttpResponseParser::pause();
 		_error = AbortedError;
 		_responsePending = false;
@@ -617,7 +618,7 @@ void Pillow::HttpClient::device_readyRead()
 	qint64 bytesAvailable = _device->bytesAvailable();
 	if (bytesAvailable == 0) return; // There may be nothing left by the time a delayed call from consumeContent() gets here.
 
-	if (!responsePending())
+	if (!_responsePending)
 	{
 		// Not supposed to be receiving data at this point. Just
 		// ignore it and close the connection.
@@ -643,7 +644,7 @@ void Pillow::HttpClient::device_readyRead()
 
 	int consumed = inject(_buffer);
 
-	if (responsePending())
+	if (_responsePending)
 	{
 		// Response is still pending. One of the following:
 		// 1. Got a parser error. (where hasError)
@@ -656,7 +657,7 @@ void Pillow::HttpClient::device_readyRead()
 			{
 				// We had multiple responses in the buffer?
 				// They were 100 Continue as long as we are still response pending.
-				while (responsePending() && !hasError() && consumed < _buffer.size())
+				while (_responsePending && !hasError() && consumed < _buffer.size())
 					consumed += inject(_buffer.constData() + consumed, _buffer.size() - consumed);
 
 				if (consumed < _buffer.size())
@@ -683,13 +684,13 @@ void Pillow::HttpClient::device_readyRead()
 		_buffer.data_ptr()->size = 0;
 
 	// Response completed or got aborted in a callback, plus we got a new request while in callback.
-	if (!responsePending() && !_pendingRequest.method.isNull())
+	if (!_responsePending && !_pendingRequest.method.isNull())
 		QTimer::singleShot(0, this, SLOT(sendPendingRequest())); // Not while the device is signaling.
 }
 
 void Pillow::HttpClient::sendPendingRequest()
 {
-	if (!responsePending() && !_pendingRequest.method.isNull())
+	if (!_responsePending && !_pendingRequest.method.isNull())
 	{
 		Pillow::HttpClientRequest r = _pendingRequest;
 		_pendingRequest = Pillow::HttpClientRequest(); // Clear it.
@@ -699,7 +700,7 @@ void Pillow::HttpClient::sendPendingRequest()
 
 void Pillow::HttpClient::sendRequest()
 {
-	if (!responsePending()) return;
+	if (!_responsePending) return;
 
 	if (_hostHeaderValue.isEmpty())
 	{
@@ -740,7 +741,7 @@ void Pillow::HttpClient::headersComplete()
 
 	emit headersCompleted();
 
-	if (!responsePending())
+	if (!_responsePending)
 		return; // Aborted by one of the slots.
 
 	if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(_request.method, Pillow::LowerCaseToken("head")))
-- 
2.43.0


From b99c8ab3f998edcfdf1276b377baf82984435b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:39 +0000
Subject: [PATCH 46/76] fix: pass content that is too short to be gzip through

---
 pillowcore/HttpClient.cpp | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 37b739c..cffdcef 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -32,13 +32,14 @@ namespace Pillow
 	public:
 		virtual ~ContentTransformer() {}
 		virtual QByteArray transform(const char *data, int length) = 0;
+		virtual QByteArray finish() = 0; // What is left to output at the end of the input, if anything.
 	};
 
 #ifdef PILLOW_ZLIB
 	class GunzipContentTransformer : public ContentTransformer
 	{
 	public:
-		GunzipContentTransformer(): _streamBad(false)
+		GunzipContentTransformer(): _streamBad(false), _streamEnd(false)
 		{
 			memset(&_inflateStream, 0, sizeof(z_stream));
 			inflateInit2(&_inflateStream, 31);
@@ -68,7 +69,10 @@ namespace Pillow
 				_inflateStream.next_out = buffer;
 				_inflateStream.avail_out = sizeof(buffer);
 
-				if (_streamBad || inflate(&_inflateStream, Z_NO_FLUSH) < 0) // Less than 0 is error.
+				const int result = _streamBad ? Z_STREAM_ERROR : inflate(&_inflateStream, Z_NO_FLUSH);
+				_streamEnd = result == Z_STREAM_END;
+
+				if (result < 0) // Less than 0 is error.
 				{
 					qWarning("Pillow::GunzipContentTransformer::transform: error inflating input stream passing original content through.");
 					_streamBad = true;
@@ -100,11 +104,18 @@ namespace Pillow
 			return _inflatedBuffer;
 		}
 
+		QByteArray finish()
+		{
+			// Too short to tell whether it was gzip or not. It was not.
+			return _streamEnd ? QByteArray() : _inputBuffer;
+		}
+
 	private:
 		z_stream _inflateStream;
 		QByteArray _inflatedBuffer;
 		QByteArray _inputBuffer;
 		bool _streamBad;
+		bool _streamEnd;
 	};
 #endif // PILLOW_ZLIB
 }
@@ -781,8 +792,19 @@ void Pillow::HttpClient::messageContent(const char *data, int length)
 
 void Pillow::HttpClient::messageComplete()
 {
-	delete _contentDecoder;
-	_contentDecoder = 0;
+	if (_contentDecoder)
+	{
+		const QByteArray rest = _contentDecoder->finish();
+		delete _contentDecoder;
+		_contentDecoder = 0;
+
+		if (!rest.isEmpty())
+		{
+			messageContent(rest.constData(), rest.size());
+			if (!_responsePending)
+				return; // Aborted by one of the slots.
+		}
+	}
 
 	if (statusCode() == 100)
 	{
-- 
2.43.0


From a8cf75474d49413c5f52178364dae756ffaf735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:18 +0000
Subject: [PATCH 47/76] fix: allow aborting a request that is about to fail

---
 pillowcore/HttpClient.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index cffdcef..0483c7a 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -549,7 +549,8 @@ void Pillow::HttpClient::abort()
 	if (responsePending())
 	{
 		_pendingRequest = Pillow::HttpClientRequest();
-		Pillow::HttpResponseParser::pause();
+		if (Pillow::HttpResponseParser::isParsing())
+			Pillow::HttpResponseParser::pause();
 		_error = AbortedError;
 		_responsePending = false;
 		emit finished();
-- 
2.43.0


From 66d0c3cdae198c4d2ddd1c60ccc0280cad598ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:33 +0000
Subject: [PATCH 48/76] fix: do not percent-decode request header values and
 content for scripts

---
 pillowcore/HttpHandlerQtScript.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index 2635367..f3c01b0 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -12,7 +12,7 @@ static QScriptValue toScriptValue(QScriptEngine *engine, const Pillow::HttpHeade
 	QScriptValue result = engine->newObject();
 
 	for (int i = 0, iE = headers.size(); i < iE; ++i)
-		result.setProperty(QString::fromUtf8(headers.at(i).first), QUrl::fromPercentEncoding(headers.at(i).second));
+		result.setProperty(QString::fromUtf8(headers.at(i).first), QString::fromUtf8(headers.at(i).second.constData(), headers.at(i).second.size()));
 
 	return result;
 }
@@ -88,7 +88,7 @@ bool HttpHandlerQtScript::handleRequest(Pillow::HttpConnection *connection)
 	requestObject.setProperty("requestPath", QUrl::fromPercentEncoding(connection->requestPath()));
 	requestObject.setProperty("requestQueryString", QUrl::fromPercentEncoding(connection->requestQueryString()));
 	requestObject.setProperty("requestHeaders", qScriptValueFromValue(engine, connection->requestHeaders()));
-	requestObject.setProperty("requestContent", QUrl::fromPercentEncoding(connection->requestContent()));
+	requestObject.setProperty("requestContent", QString::fromUtf8(connection->requestContent().constData(), connection->requestContent().size()));
 
 	QList<QPair<QString, QString> > queryParams = QUrl(connection->requestUri()).queryItems();
 	QScriptValue queryParamsObject = engine->newObject();
-- 
2.43.0


From 4cbfef2fb00c083cf4ed2ac7cf6d2b770f4ac234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:33 +0000
Subject: [PATCH 49/76] fix: give scripts the fully decoded request params

---
 pillowcore/HttpHandlerQtScript.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index f3c01b0..8092d04 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -90,7 +90,7 @@ bool HttpHandlerQtScript::handleRequest(Pillow::HttpConnection *connection)
 	requestObject.setProperty("requestHeaders", qScriptValueFromValue(engine, connection->requestHeaders()));
 	requestObject.setProperty("requestContent", QString::fromUtf8(connection->requestContent().constData(), connection->requestContent().size()));
 
-	QList<QPair<QString, QString> > queryParams = QUrl(connection->requestUri()).queryItems();
+	const HttpParamCollection& queryParams = connection->requestParams();
 	QScriptValue queryParamsObject = engine->newObject();
 	for (int i = 0, iE = queryParams.size(); i < iE; ++i)
 		queryParamsObject.setProperty(queryParams.at(i).first, queryParams.at(i).second);
-- 
2.43.0


From 298e31852120d81e601bf3fa6a8e29b417ca4d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:33 +0000
Subject: [PATCH 50/76] fix: treat exceptions that are not Error objects as
 script errors

---
 pillowcore/HttpHandlerQtScript.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index 8092d04..1d73b86 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -96,9 +96,10 @@ bool HttpHandlerQtScript::handleRequest(Pillow::HttpConnection *connection)
 		queryParamsObject.setProperty(queryParams.at(i).first, queryParams.at(i).second);
 	requestObject.setProperty("requestQueryParams", queryParamsObject);
 
+	engine->clearExceptions(); // Only exceptions of this call matter below.
 	QScriptValue result = _scriptFunction.call(_scriptFunction, QScriptValueList() << requestObject);
 
-	if (result.isError())
+	if (result.isError() || engine->hasUncaughtException()) // Anything can be thrown, not only Error objects.
 	{
 		if (connection->state() == HttpConnection::SendingHeaders)
 		{
-- 
2.43.0


From ab06049f9a53b776f7757efc8cb466337beaf525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:33 +0000
Subject: [PATCH 51/76] fix: reject script files that throw anything while
 loading, without leaving the exception in the engine

---
 pillowcore/HttpHandlerQtScript.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index 1d73b86..da6d7bf 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -168,8 +168,9 @@ bool HttpHandlerQtScriptFile::handleRequest(Pillow::HttpConnection *request)
 		QScriptValue result = engine->evaluate(file.readAll(), _fileName);
 		engine->popContext();
 
-		if (result.isError())
+		if (result.isError() || engine->hasUncaughtException())
 		{
+			engine->clearExceptions();
 			request->writeResponseString(500, HttpHeaderCollection(), QString("HttpHandlerQtScriptFile::handleRequest: Error while evaluating script %1: %2").arg(_fileName).arg(objectToString(result)));
 			return true;
 		}
-- 
2.43.0


From 602edea29153124f0b68f488518c2bd83b6a80a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:33 +0000
Subject: [PATCH 52/76] fix: initialize the auto reload flag of script file
 handlers

---
 pillowcore/HttpHandlerQtScript.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index da6d7bf..c25dbe7 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -118,12 +118,11 @@ bool HttpHandlerQtScript::handleRequest(Pillow::HttpConnection *connection)
 //
 
 HttpHandlerQtScriptFile::HttpHandlerQtScriptFile(QScriptEngine* engine, const QString &fileName, const QString &functionName, bool autoReload, QObject *parent)
-: HttpHandlerQtScript(parent)
+: HttpHandlerQtScript(parent), _autoReload(autoReload)
 {
 	_scriptObject = engine->newObject();
 	setFileName(fileName);
 	setFunctionName(functionName);
-	setAutoReload(autoReload);
 }
 
 void HttpHandlerQtScriptFile::setFileName(const QString &fileName)
-- 
2.43.0


From e1034e4a4e5cc73a135fd220a68ab73218df7a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:33 +0000
Subject: [PATCH 53/76] fix: load the script again after its file or function
 name changed

---
 pillowcore/HttpHandlerQtScript.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index c25dbe7..e2a7d38 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -129,6 +129,7 @@ void HttpHandlerQtScriptFile::setFileName(const QString &fileName)
 {
 	if (_fileName == fileName) return;
 	_fileName = fileName;
+	_lastModified = QDateTime(); // Not loaded yet.
 
 	if (!QFile::exists(fileName))
 		qWarning() << "HttpHandlerQtScriptFile::setFileName: file" << fileName << "does not exist. This handler won't be able to handle requests.";
@@ -138,6 +139,7 @@ void HttpHandlerQtScriptFile::setFunctionName(const QString &functionName)
 {
 	if (_functionName == functionName) return;
 	_functionName = functionName;
+	_lastModified = QDateTime(); // Not loaded yet.
 }
 
 void HttpHandlerQtScriptFile::setAutoReload(bool autoReload)
-- 
2.43.0


From 65a913295322c7e32cf1a573ef4781580e9f10ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:33 +0000
Subject: [PATCH 54/76] fix: reload script files replaced by an older one, or
 changed while loading

---
 pillowcore/HttpHandlerQtScript.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index e2a7d38..3384482 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -150,7 +150,9 @@ void HttpHandlerQtScriptFile::setAutoReload(bool autoReload)
 
 bool HttpHandlerQtScriptFile::handleRequest(Pillow::HttpConnection *request)
 {
-	if (!_lastModified.isValid() || (_autoReload && QFileInfo(_fileName).lastModified() > _lastModified))
+	const QDateTime lastModified = QFileInfo(_fileName).lastModified(); // As of before reading it, as it may change meanwhile.
+
+	if (!_lastModified.isValid() || (_autoReload && lastModified.isValid() && lastModified != _lastModified))
 	{
 		// Time to (re)load the script.
 		qDebug() << "HttpHandlerQtScriptFile::handleRequest: (re)loading" << _fileName;
@@ -183,7 +185,7 @@ bool HttpHandlerQtScriptFile::handleRequest(Pillow::HttpConnection *request)
 			return true;
 		}
 
-		_lastModified = QFileInfo(_fileName).lastModified();
+		_lastModified = lastModified;
 		setScriptFunction(scriptFunction);
 	}
 
-- 
2.43.0


From f8be8d5bc1092025a90a856e1b2ef10ca94bf348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:33 +0000
Subject: [PATCH 55/76] fix: do not load script files into a destroyed script
 engine

---
 pillowcore/HttpHandlerQtScript.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index 3384482..161ff80 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -164,6 +164,11 @@ bool HttpHandlerQtScriptFile::handleRequest(Pillow::HttpConnection *request)
 		}
 
 		QScriptEngine* engine = _scriptObject.engine();
+		if (engine == NULL)
+		{
+			request->writeResponseString(500, HttpHeaderCollection(), QString("HttpHandlerQtScriptFile::handleRequest: Could not load script %1: the script engine is gone").arg(_fileName));
+			return true;
+		}
 		_scriptObject = engine->newObject();
 		QScriptContext* context = engine->pushContext();
 		context->setActivationObject(_scriptObject);
-- 
2.43.0


From 5d07de6b9b2a198b1480594c8f0ae613dc5e7c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:31 +0000
Subject: [PATCH 56/76] fix: keep the scope of the loaded script function alive
 when reloading fails

---
 pillowcore/HttpHandlerQtScript.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index 161ff80..c501875 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -169,10 +169,10 @@ bool HttpHandlerQtScriptFile::handleRequest(Pillow::HttpConnection *request)
 			request->writeResponseString(500, HttpHeaderCollection(), QString("HttpHandlerQtScriptFile::handleRequest: Could not load script %1: the script engine is gone").arg(_fileName));
 			return true;
 		}
-		_scriptObject = engine->newObject();
+		QScriptValue scriptObject = engine->newObject();
 		QScriptContext* context = engine->pushContext();
-		context->setActivationObject(_scriptObject);
-		context->setThisObject(_scriptObject);
+		context->setActivationObject(scriptObject);
+		context->setThisObject(scriptObject);
 		QScriptValue result = engine->evaluate(file.readAll(), _fileName);
 		engine->popContext();
 
@@ -183,7 +183,7 @@ bool HttpHandlerQtScriptFile::handleRequest(Pillow::HttpConnection *request)
 			return true;
 		}
 
-		QScriptValue scriptFunction = _scriptObject.property(_functionName);
+		QScriptValue scriptFunction = scriptObject.property(_functionName);
 		if (!scriptFunction.isFunction())
 		{
 			request->writeResponseString(500, HttpHeaderCollection(), QString("HttpHandlerQtScriptFile::handleRequest: Error while evaluating script %1: '%2' is not a function defined in the script").arg(_fileName).arg(_functionName));
@@ -191,6 +191,7 @@ bool HttpHandlerQtScriptFile::handleRequest(Pillow::HttpConnection *request)
 		}
 
 		_lastModified = lastModified;
+		_scriptObject = scriptObject; // Keeps the scope of the function alive.
 		setScriptFunction(scriptFunction);
 	}
 
-- 
2.43.0


From 046b6d151c37a9d2e350071451823fb146d388e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:50 +0000
Subject: [PATCH 57/76] fix: allow appending a header collection to itself

---
 pillowcore/HttpHeader.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pillowcore/HttpHeader.cpp b/pillowcore/HttpHeader.cpp
index ac67e31..b08cb21 100644
--- a/pillowcore/HttpHeader.cpp
+++ b/pillowcore/HttpHeader.cpp
@@ -53,11 +53,12 @@ void Pillow::HttpHeader::setFromRawHeader(const char *rawHeader, int len)
 Pillow::HttpHeaderCollection &Pillow::HttpHeaderCollection::operator+=(const QVector<HttpHeader> &l)
 {
 	int oldSize = size();
-	resize(size() + l.size());
+	int addedSize = l.size(); // The collection can be appended to itself.
+	resize(oldSize + addedSize);
 
 	Pillow::HttpHeader *dest = begin() + oldSize;
-	const Pillow::HttpHeader *src = l.begin();
-	const Pillow::HttpHeader *srcE = l.end();
+	const Pillow::HttpHeader *src = l.constBegin();
+	const Pillow::HttpHeader *srcE = src + addedSize;
 	while (src != srcE)
 		*(dest++) = *(src++);
 
-- 
2.43.0


From 7aa1ca67d7085fe7cb42a1485bddc0a4e28104f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:50 +0000
Subject: [PATCH 58/76] fix: format the lowest number of an integer type
 correctly

---
 pillowcore/ByteArrayHelpers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pillowcore/ByteArrayHelpers.h b/pillowcore/ByteArrayHelpers.h
index 5fd3112..3742e18 100644
--- a/pillowcore/ByteArrayHelpers.h
+++ b/pillowcore/ByteArrayHelpers.h
@@ -115,8 +115,8 @@ namespace Pillow
 		{
 			static const char intToChar[16] = { '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'a', 'b', 'c', 'd', 'e', 'f' };
 			int start = target.size();
-			Integer n = number; if (n < 0) n = -n;
-			do { if (Base <= 10) target.append(char(n % Base) + '0'); else target.append(intToChar[n % Base]); } while ((n /= Base) > 0);
+			Integer n = number; // Not negated, as the lowest number has no positive counterpart.
+			do { int digit = int(n % Base); target.append(intToChar[digit < 0 ? -digit : digit]); } while ((n /= Base) != 0);
 			if (number < 0) target.append('-');
 
 			// Reverse the string we've just output
-- 
2.43.0


From 7030f738967196d1f9e3ad80251ff91bc4f2539a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:50 +0000
Subject: [PATCH 59/76] fix: do not read out of bounds for an invalid date

---
 pillowcore/HttpHelpers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pillowcore/HttpHelpers.cpp b/pillowcore/HttpHelpers.cpp
index f765d33..1768e0e 100644
--- a/pillowcore/HttpHelpers.cpp
+++ b/pillowcore/HttpHelpers.cpp
@@ -90,6 +90,7 @@ namespace Pillow
 				static const char* intNames[] = {"00", "01", "02", "03", "04", "05", "06", "07", "08", "09", "10", "11", "12", "13", "14", "15", "16", "17", "18", "19", "20", "21", "22", "23", "24", "25", "26", "27", "28", "29", "30", "31", "32", "33", "34", "35", "36", "37", "38", "39", "40", "41", "42", "43", "44", "45", "46", "47", "48", "49", "50", "51", "52", "53", "54", "55", "56", "57", "58", "59", "60"};
 
 				QDateTime utcDateTime = dateTime.toUTC();
+				if (!utcDateTime.isValid()) return QByteArray();
 				const QDate& date = utcDateTime.date();
 				const QTime& time = utcDateTime.time();
 
-- 
2.43.0


From 7a4eb1ca00da01e9de3a188396e45e2250e3307b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:50 +0000
Subject: [PATCH 60/76] fix: do not turn registered status codes into 500

---
 pillowcore/HttpHelpers.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pillowcore/HttpHelpers.cpp b/pillowcore/HttpHelpers.cpp
index 1768e0e..75c3ded 100644
--- a/pillowcore/HttpHelpers.cpp
+++ b/pillowcore/HttpHelpers.cpp
@@ -37,6 +37,9 @@ namespace Pillow
 					case 204: return "204 No Content";
 					case 205: return "205 Reset Content";
 					case 206: return "206 Partial Content";
+					case 207: return "207 Multi-Status";
+					case 208: return "208 Already Reported";
+					case 226: return "226 IM Used";
 
 					case 300: return "300 Multiple Choices";
 					case 301: return "301 Moved Permanently";
@@ -45,9 +48,11 @@ namespace Pillow
 					case 304: return "304 Not Modified";
 					case 305: return "305 Use Proxy";
 					case 307: return "307 Temporary Redirect";
+					case 308: return "308 Permanent Redirect";
 
 					case 400: return "400 Bad Request";
 					case 401: return "401 Unauthorized";
+					case 402: return "402 Payment Required";
 					case 403: return "403 Forbidden";
 					case 404: return "404 Not Found";
 					case 405: return "405 Method Not Allowed";
@@ -63,6 +68,16 @@ namespace Pillow
 					case 415: return "415 Unsupported Media Type";
 					case 416: return "416 Requested Range Not Satisfiable";
 					case 417: return "417 Expectation Failed";
+					case 421: return "421 Misdirected Request";
+					case 422: return "422 Unprocessable Entity";
+					case 423: return "423 Locked";
+					case 424: return "424 Failed Dependency";
+					case 425: return "425 Too Early";
+					case 426: return "426 Upgrade Required";
+					case 428: return "428 Precondition Required";
+					case 429: return "429 Too Many Requests";
+					case 431: return "431 Request Header Fields Too Large";
+					case 451: return "451 Unavailable For Legal Reasons";
 
 					case 500: return "500 Internal Server Error";
 					case 501: return "501 Not Implemented";
@@ -70,6 +85,11 @@ namespace Pillow
 					case 503: return "503 Service Unavailable";
 					case 504: return "504 Gateway Timeout";
 					case 505: return "505 HTTP Version Not Supported";
+					case 506: return "506 Variant Also Negotiates";
+					case 507: return "507 Insufficient Storage";
+					case 508: return "508 Loop Detected";
+					case 510: return "510 Not Extended";
+					case 511: return "511 Network Authentication Required";
 				}
 				return NULL;
 			}
-- 
2.43.0


From 8052b7b812a275c322ceb898e63c223b3042109d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:23 +0000
Subject: [PATCH 61/76] fix: remember the error of a network reply

---
 pillowcore/HttpClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 0483c7a..24118ba 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -934,6 +934,7 @@ namespace Pillow
 				case Pillow::HttpClient::AbortedError: error = QNetworkReply::OperationCanceledError; break;
 				}
 
+				setError(error, tr("The request did not complete (%1)").arg(static_cast<int>(error)));
 				emit this->error(error);
 			}
 
-- 
2.43.0


From 13f42636bb4b8b62d14a1d8cf2872e8d7b6b08bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:23 +0000
Subject: [PATCH 62/76] fix: keep all the values of repeated headers in network
 replies

---
 pillowcore/HttpClient.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 24118ba..0a114e2 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -872,6 +872,7 @@ namespace Pillow
 		void client_headersCompleted()
 		{
 			QList<QNetworkCookie> cookies;
+			QByteArray setCookieValue;
 
 			setAttribute(QNetworkRequest::HttpStatusCodeAttribute, _client->statusCode());
 
@@ -882,16 +883,23 @@ namespace Pillow
 
 			foreach (const Pillow::HttpHeader &header, _client->headers())
 			{
-				setRawHeader(header.first, header.second);
-
 				if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.first, Pillow::LowerCaseToken("set-cookie")))
+				{
+					if (!setCookieValue.isEmpty()) setCookieValue.append('\n');
+					setCookieValue.append(header.second);
 					cookies += QNetworkCookie::parseCookies(header.second);
-				else if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.first, Pillow::LowerCaseToken("location")))
+					continue;
+				}
+
+				// Keep all the values of a header that was received more than once.
+				setRawHeader(header.first, hasRawHeader(header.first) ? rawHeader(header.first) + ", " + header.second : header.second);
+
+				if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.first, Pillow::LowerCaseToken("location")))
 					setAttribute(QNetworkRequest::RedirectionTargetAttribute, QUrl::fromEncoded(header.second));
 			}
 
-			if (!cookies.isEmpty())
-				setHeader(QNetworkRequest::SetCookieHeader, QVariant::fromValue(cookies));
+			if (!setCookieValue.isEmpty())
+				setRawHeader("Set-Cookie", setCookieValue);
 
 			QNetworkAccessManager *nam = manager();
 			if (nam)
-- 
2.43.0


From c82943c3131c5be3df5e3a28be75efa3063e3aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:23 +0000
Subject: [PATCH 63/76] fix: let go of the client before telling about the
 error of a network reply

---
 pillowcore/HttpClient.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 0a114e2..9f1f576 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -927,13 +927,16 @@ namespace Pillow
 
 		void client_finished()
 		{
-			disconnect(_client, 0, this, 0);
+			// The client might be used by another reply as soon as the first signal is emitted.
+			Pillow::HttpClient *client = _client;
+			_client = 0;
+			disconnect(client, 0, this, 0);
 
-			if (_client->error() != Pillow::HttpClient::NoError)
+			if (client->error() != Pillow::HttpClient::NoError)
 			{
 				QNetworkReply::NetworkError error = QNetworkReply::UnknownNetworkError;
 
-				switch (_client->error())
+				switch (client->error())
 				{
 				case Pillow::HttpClient::NoError: error = QNetworkReply::NoError; break;
 				case Pillow::HttpClient::NetworkError: error = QNetworkReply::UnknownNetworkError; break;
@@ -946,7 +949,6 @@ namespace Pillow
 				emit this->error(error);
 			}
 
-			_client = 0;
 			setFinished(true);
 			emit finished();
 		}
-- 
2.43.0


From eda095c8537af0b3b3c54a0bf251ea66bb594d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:23 +0000
Subject: [PATCH 64/76] fix: abort the request of a network reply that gets
 deleted

---
 pillowcore/HttpClient.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 9f1f576..d553fe3 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -4,6 +4,7 @@
 #include <QtCore/QUrl>
 #include <QtCore/QFile>
 #include <QtCore/QFileInfo>
+#include <QtCore/QPointer>
 #include <QtNetwork/QTcpSocket>
 #include <QtNetwork/QNetworkReply>
 #include <QtNetwork/QNetworkCookie>
@@ -855,7 +856,14 @@ namespace Pillow
 		}
 
 		~NetworkReply()
-		{}
+		{
+			if (_client)
+			{
+				// Do not go on receiving a response that nobody can read.
+				disconnect(_client, 0, this, 0);
+				_client->abort();
+			}
+		}
 
 	public:
 		void abort()
@@ -964,7 +972,7 @@ namespace Pillow
 		}
 
 	private:
-		Pillow::HttpClient *_client;
+		QPointer<Pillow::HttpClient> _client;
 		QByteArray _content;
 		int _contentPos;
 	};
-- 
2.43.0


From d0c4fa762a5afda5f9ae47176d3a6618405b8fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:37 +0000
Subject: [PATCH 65/76] fix: keep headers with an empty value in network
 replies

---
 pillowcore/HttpClient.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index d553fe3..5279eca 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -900,7 +900,10 @@ namespace Pillow
 				}
 
 				// Keep all the values of a header that was received more than once.
-				setRawHeader(header.first, hasRawHeader(header.first) ? rawHeader(header.first) + ", " + header.second : header.second);
+				if (hasRawHeader(header.first))
+					setRawHeader(header.first, rawHeader(header.first) + ", " + header.second);
+				else
+					setRawHeader(header.first, header.second.isNull() ? QByteArray("") : header.second); // A null value would remove the header.
 
 				if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.first, Pillow::LowerCaseToken("location")))
 					setAttribute(QNetworkRequest::RedirectionTargetAttribute, QUrl::fromEncoded(header.second));
-- 
2.43.0


From 3f9b5b1e171db27696cfb0cfc3e6dad930058f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:37 +0000
Subject: [PATCH 66/76] fix: do not copy to a null pointer when reading nothing
 from a network reply

---
 pillowcore/HttpClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 5279eca..3747034 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -968,6 +968,7 @@ namespace Pillow
 		qint64 readData(char *data, qint64 maxSize)
 		{
 			if (_contentPos >= _content.size()) return -1;
+			if (maxSize <= 0) return 0;
 			qint64 bytesRead = qMin(maxSize, static_cast<qint64>(_content.size() - _contentPos));
 			memcpy(data, _content.constData() + _contentPos, bytesRead);
 			_contentPos += bytesRead;
-- 
2.43.0


From 591cf77e54ffd95283974b1097123b0e4c635365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:49 +0000
Subject: [PATCH 67/76] fix: do not complete the log entry of a client with the
 response of the next one on its connection

---
 pillowcore/HttpHandler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index 7c0c06d..7d6b906 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -193,7 +193,9 @@ bool HttpHandlerLog::handleRequest(Pillow::HttpConnection *connection)
 void HttpHandlerLog::requestCompleted(Pillow::HttpConnection *connection)
 {
 	Entry* entry = _entries.value(connection, NULL);
-	if (entry && entry->pending)
+
+	// A connection that was closed and is not any more completes the request of another client (see requestReady).
+	if (entry && entry->pending && !(entry->closed && connection->state() != HttpConnection::Closed))
 	{
 		entry->pending = false;
 		log(formatLogEntry((_mode == LogCompletedRequests) ? "" : "[ END ] ", entry->remoteAddress, entry->method, entry->uri, entry->httpVersion, formatLogResult(connection, entry->timer.elapsed())));
@@ -209,6 +211,8 @@ void HttpHandlerLog::requestClosed(HttpConnection *connection)
 		if (_mode == TraceRequests)
 			log(formatLogEntry("[CLOSE] ", entry->remoteAddress, entry->method, entry->uri, entry->httpVersion, formatLogResult(connection, entry->timer.elapsed())));
 	}
+	else if (entry)
+		entry->pending = false; // This is the end of another client already.
 }
 
 void HttpHandlerLog::requestReady(HttpConnection *connection)
-- 
2.43.0


From 185a4817671c99bdabdb02e376014662567d5d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:04 +0000
Subject: [PATCH 68/76] fix: do not take bytes above 127 for hexadecimal digits
 of chunk sizes

---
 pillowcore/parser/http_parser.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pillowcore/parser/http_parser.c b/pillowcore/parser/http_parser.c
index b109720..64266b2 100644
--- a/pillowcore/parser/http_parser.c
+++ b/pillowcore/parser/http_parser.c
@@ -181,6 +181,14 @@ static const int8_t unhex[256] =
   ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
   ,-1,10,11,12,13,14,15,-1,-1,-1,-1,-1,-1,-1,-1,-1
   ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
+  ,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1,-1
   };
 
 
-- 
2.43.0


From ba559be6e5887ab55be7e9028877f549c1cdd25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:13 +0000
Subject: [PATCH 69/76] fix: finish or close transfers of files that grow or
 shrink while they are sent

---
 pillowcore/HttpHandler.cpp | 16 +++++++++++++---
 pillowcore/HttpHandler.h   |  1 +
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index 7d6b906..b011fcf 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -367,7 +367,7 @@ bool HttpHandlerFile::handleRequest(Pillow::HttpConnection *connection)
 //
 
 HttpHandlerFileTransfer::HttpHandlerFileTransfer(QIODevice *sourceDevice, HttpConnection *connection, int bufferSize)
-	: _sourceDevice(sourceDevice), _connection(connection), _bufferSize(bufferSize)
+	: _sourceDevice(sourceDevice), _connection(connection), _bufferSize(bufferSize), _sourceSize(-1)
 {
 	if (bufferSize < 512)
 	{
@@ -397,16 +397,26 @@ void HttpHandlerFileTransfer::writeNextPayload()
 {
 	if (_sourceDevice == NULL || _connection == NULL || _connection->outputDevice() == NULL) return;
 
+	// Send what the source holds at the start, which is what the client was told to expect, even if the source changes meanwhile.
+	if (_sourceSize < 0 || _sourceDevice->isSequential())
+		_sourceSize = _sourceDevice->size();
+
+	if (_sourceDevice->pos() < _sourceSize && _sourceDevice->size() < _sourceSize)
+	{
+		_connection->close(); // The source got shorter: do not let the client wait for what is gone.
+		return;
+	}
+
 	qint64 bytesToRead = _bufferSize - _connection->outputDevice()->bytesToWrite();
 	if (bytesToRead <= 0) return;
-	qint64 bytesAvailable = _sourceDevice->size() - _sourceDevice->pos();
+	qint64 bytesAvailable = _sourceSize - _sourceDevice->pos();
 	if (bytesToRead > bytesAvailable) bytesToRead = bytesAvailable;
 
 	if (bytesToRead > 0)
 	{
 		_connection->writeContent(_sourceDevice->read(bytesToRead));
 
-		if (_sourceDevice->atEnd())
+		if (_sourceDevice->atEnd() || _sourceDevice->pos() == _sourceSize)
 			emit finished();
 	}
 }
diff --git a/pillowcore/HttpHandler.h b/pillowcore/HttpHandler.h
index 2dbfb7c..a4995c0 100644
--- a/pillowcore/HttpHandler.h
+++ b/pillowcore/HttpHandler.h
@@ -205,6 +205,7 @@ namespace Pillow
 		QPointer<QIODevice> _sourceDevice;
 		QPointer<HttpConnection> _connection;
 		int _bufferSize;
+		qint64 _sourceSize;
 
 	public:
 		HttpHandlerFileTransfer(QIODevice* sourceDevice, Pillow::HttpConnection* connection, int bufferSize = HttpHandlerFile::DefaultBufferSize);
-- 
2.43.0


From a73e8a16baf649fc3c3facddc41caef1c6a199b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:38 +0000
Subject: [PATCH 70/76] fix: do not offer a request to handlers that earlier
 handlers of the stack deleted

---
 pillowcore/HttpHandler.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index b011fcf..325ea99 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -6,6 +6,7 @@
 #include <QtCore/QCryptographicHash>
 #include <QtCore/QElapsedTimer>
 #include <QtCore/QDateTime>
+#include <QtCore/QPointer>
 #include <QtCore/QStringBuilder>
 #include <QtNetwork/QTcpSocket>
 using namespace Pillow;
@@ -30,9 +31,13 @@ HttpHandlerStack::HttpHandlerStack(QObject *parent)
 
 bool HttpHandlerStack::handleRequest(Pillow::HttpConnection *connection)
 {
+	QList<QPointer<QObject> > objects; // Handlers may well delete the ones that come after them.
 	foreach (QObject* object, children())
+		objects << object;
+
+	foreach (const QPointer<QObject>& object, objects)
 	{
-		HttpHandler* handler = qobject_cast<HttpHandler*>(object);
+		HttpHandler* handler = qobject_cast<HttpHandler*>(object.data());
 
 		if (handler && handler->handleRequest(connection))
 			return true;
-- 
2.43.0


From 5ca87328817cbb00630f69daa372b5cec103bfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:38 +0000
Subject: [PATCH 71/76] fix: keep the function of a function handler alive
 while it is running

---
 pillowcore/HttpHandler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index 325ea99..41560e9 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -109,7 +109,8 @@ bool HttpHandlerFunction::handleRequest(HttpConnection *connection)
 {
 	if (_function)
 	{
-		_function(connection);
+		const std::function<void (HttpConnection *)> function = _function; // It may well set another function, or delete the handler.
+		function(connection);
 		return true;
 	}
 	else
-- 
2.43.0


From 8a0720e109300fcbc828ab11ddbb12424ae3dd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:57 +0000
Subject: [PATCH 72/76] fix: file transfers over TLS wait for the client to
 read instead of hoarding the file

---
 pillowcore/HttpHandler.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index 41560e9..cf22686 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -9,6 +9,9 @@
 #include <QtCore/QPointer>
 #include <QtCore/QStringBuilder>
 #include <QtNetwork/QTcpSocket>
+#if !defined(PILLOW_NO_SSL) && !defined(QT_NO_SSL)
+#include <QtNetwork/QSslSocket>
+#endif
 using namespace Pillow;
 
 //
@@ -387,7 +390,13 @@ HttpHandlerFileTransfer::HttpHandlerFileTransfer(QIODevice *sourceDevice, HttpCo
 	connect(_connection, SIGNAL(destroyed()), this, SLOT(deleteLater()));
 
 	if (_connection->outputDevice() != NULL)
+	{
 		connect(_connection->outputDevice(), SIGNAL(bytesWritten(qint64)), this, SLOT(writeNextPayload()), Qt::QueuedConnection);
+#if !defined(PILLOW_NO_SSL) && !defined(QT_NO_SSL)
+		if (qobject_cast<QSslSocket*>(_connection->outputDevice()))
+			connect(_connection->outputDevice(), SIGNAL(encryptedBytesWritten(qint64)), this, SLOT(writeNextPayload()), Qt::QueuedConnection);
+#endif
+	}
 	else
 		stop(); // The connection is already closed.
 }
@@ -414,6 +423,11 @@ void HttpHandlerFileTransfer::writeNextPayload()
 	}
 
 	qint64 bytesToRead = _bufferSize - _connection->outputDevice()->bytesToWrite();
+#if !defined(PILLOW_NO_SSL) && !defined(QT_NO_SSL)
+	// A SSL socket says that bytes are written as soon as they are encrypted, even if the client does not read them.
+	if (QSslSocket* sslSocket = qobject_cast<QSslSocket*>(_connection->outputDevice()))
+		bytesToRead -= sslSocket->encryptedBytesToWrite();
+#endif
 	if (bytesToRead <= 0) return;
 	qint64 bytesAvailable = _sourceSize - _sourceDevice->pos();
 	if (bytesToRead > bytesAvailable) bytesToRead = bytesAvailable;
-- 
2.43.0


From d506e6e1e5848ef013f4ff4b16f504bd1b8ba7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:57 +0000
Subject: [PATCH 73/76] fix: requests that arrive while a slot of
 requestReady() runs an event loop are processed

---
 pillowcore/HttpConnection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 6b95342..373c6df 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -322,7 +322,12 @@ inline void Pillow::HttpConnectionPrivate::transitionToSendingHeaders()
 	_responseContentBytesSent = 0; // No content bytes transfered yet.
 	_responseConnectionKeepAlive = true;
 	_responseChunkedTransferEncoding = false;
+	QPointer<HttpConnection> guard(q_ptr);
 	emit q_ptr->requestReady(q_ptr);
+
+	// The device does not signal what it receives while a slot runs an event loop, in which the request may get completed.
+	if (guard && (_state == Pillow::HttpConnection::ReceivingHeaders || _state == Pillow::HttpConnection::ReceivingContent) && _inputDevice->bytesAvailable() > 0)
+		QTimer::singleShot(0, q_ptr, SLOT(processInput()));
 }
 
 inline void Pillow::HttpConnectionPrivate::transitionToSendingContent()
-- 
2.43.0


From 9fae251d78d97e408a4c129946a78f717baa7671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:57 +0000
Subject: [PATCH 74/76] fix: the client survives event loops run by its slots
 while it parses a response

---
 pillowcore/HttpClient.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 3747034..ec47f0c 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -596,6 +596,9 @@ void Pillow::HttpClient::device_failed()
 	if (!_responsePending || _pendingError == NoError)
 		return; // The request that failed has been aborted since.
 
+	if (Pillow::HttpResponseParser::isParsing())
+		return; // In an event loop run by one of our slots. Will be called again after coming out of parsing.
+
 	if (_pendingError == RemoteHostClosedError)
 	{
 		if (_device->bytesAvailable() > 0)
@@ -628,6 +631,9 @@ void Pillow::HttpClient::device_connected()
 
 void Pillow::HttpClient::device_readyRead()
 {
+	if (Pillow::HttpResponseParser::isParsing())
+		return; // In an event loop run by one of our slots. Will be called again after coming out of parsing.
+
 	qint64 bytesAvailable = _device->bytesAvailable();
 	if (bytesAvailable == 0) return; // There may be nothing left by the time a delayed call from consumeContent() gets here.
 
@@ -696,6 +702,10 @@ void Pillow::HttpClient::device_readyRead()
 	else
 		_buffer.data_ptr()->size = 0;
 
+	// The device does not signal what it receives while one of our slots runs an event loop.
+	if (_device->bytesAvailable() > 0)
+		QTimer::singleShot(0, this, SLOT(device_readyRead()));
+
 	// Response completed or got aborted in a callback, plus we got a new request while in callback.
 	if (!_responsePending && !_pendingRequest.method.isNull())
 		QTimer::singleShot(0, this, SLOT(sendPendingRequest())); // Not while the device is signaling.
-- 
2.43.0


From 046fb2ba0bee13160e5f86ae268df2f1e99b3d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:57 +0000
Subject: [PATCH 75/76] fix: a read buffer limit that is lifted during a
 response lets the rest through

---
 pillowcore/HttpClient.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index ec47f0c..6d766d8 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -407,6 +407,10 @@ qint64 Pillow::HttpClient::readBufferSize() const
 void Pillow::HttpClient::setReadBufferSize(qint64 size)
 {
 	_device->setReadBufferSize(size);
+
+	// What the device holds already may have become readable. It does not signal that again.
+	if (_responsePending && _device->bytesAvailable() > 0)
+		QTimer::singleShot(0, this, SLOT(device_readyRead()));
 }
 
 bool Pillow::HttpClient::responsePending() const
-- 
2.43.0


From c0dad4e8476218276aef74d3d337f92899becf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:26 +0000
Subject: [PATCH 76/76] fix: treat a negative content-length response header as
 an invalid one

---
 pillowcore/HttpConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 373c6df..4b6ac7f 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -540,7 +540,7 @@ inline bool Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 		{
 			bool ok = false;
 			_responseContentLength = header->second.toLongLong(&ok);
-			if (!ok)
+			if (!ok || _responseContentLength < 0)
 			{
 				// Somebody trying to be a bad server? Pretend we don't know the length.
 				qWarning() << "HttpConnection::writeHeaders: Invalid content-length header specified. Sending response as if content-length was unknown.";
-- 
2.43.0

