From 67595ed459c7ea1633695ec728b30b1acc5ee3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:51:36 +0000
Subject: [PATCH 01/44] fix: avoid 32-bit overflow when interpolating Shamir
 shares

The products added during reconstruction are residues modulo 2^31+11, so the
sum of two of them can exceed 32 bits. The wrapped value gave a wrong secret.
---
 fcp/secagg/shared/shamir_secret_sharing.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fcp/secagg/shared/shamir_secret_sharing.cc b/fcp/secagg/shared/shamir_secret_sharing.cc
index 2d96a79..4546bc9 100644
--- a/fcp/secagg/shared/shamir_secret_sharing.cc
+++ b/fcp/secagg/shared/shamir_secret_sharing.cc
@@ -137,8 +137,10 @@ StatusOr<std::string> ShamirSecretSharing::Reconstruct(
         subshare += static_cast<uint8_t>(
             shares[share_index].data[kSubsecretSize * i + k]);
       }
-      subsecrets[i] += MultiplyMod(subshare, coefficients[j], kPrime);
-      subsecrets[i] %= kPrime;
+      // The sum of two residues may not fit in 32 bits.
+      subsecrets[i] = static_cast<uint32_t>(
+          AddMod(subsecrets[i], MultiplyMod(subshare, coefficients[j], kPrime),
+                 kPrime));
     }
   }
 
-- 
2.43.0


From 7fdfc9aeb5990b49f2af107b6e0a95858add3bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:39 +0000
Subject: [PATCH 02/44] fix: reject truncated gzip data instead of returning a
 prefix

UncompressWithGzip returned whatever had been decoded so far as success when
the compressed data ended early.
---
 fcp/base/compression.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/fcp/base/compression.cc b/fcp/base/compression.cc
index 20b969d..aac8eb0 100644
--- a/fcp/base/compression.cc
+++ b/fcp/base/compression.cc
@@ -79,6 +79,8 @@ absl::StatusOr<absl::Cord> UncompressWithGzip(
   ArrayInputStream sub_stream(compressed_data.data(),
                               static_cast<int>(compressed_data.size()));
   GzipInputStream input_stream(&sub_stream, GzipInputStream::GZIP);
+  // Whether the data returned so far ends with the end of a gzip member.
+  bool reached_end = false;
 
   while (input_stream.Next(&buffer, &size)) {
     if (size <= -1) {
@@ -87,6 +89,11 @@ absl::StatusOr<absl::Cord> UncompressWithGzip(
           "GzipInputStream.");
     }
     out.Append(absl::string_view(reinterpret_cast<const char*>(buffer), size));
+    // Z_BUF_ERROR without output only says that there was no input left.
+    int code = input_stream.ZlibErrorCode();
+    if (size > 0 || code != Z_BUF_ERROR) {
+      reached_end = code == Z_STREAM_END;
+    }
   }
 
   if (input_stream.ZlibErrorMessage() != nullptr) {
@@ -95,6 +102,10 @@ absl::StatusOr<absl::Cord> UncompressWithGzip(
         absl::StrCat("An error has occurred during decompression:",
                      input_stream.ZlibErrorMessage()));
   }
+  if (!reached_end) {
+    return absl::InternalError(
+        "Uncompress failed: the compressed data is incomplete.");
+  }
 
   return out;
 }
-- 
2.43.0


From d9061f95a210f5da4c6ad8ab4ae8d9ba40d6d836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:11 +0000
Subject: [PATCH 03/44] fix: do not overwrite another run's opstats entry after
 a failed commit

---
 fcp/client/opstats/opstats_logger_impl.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fcp/client/opstats/opstats_logger_impl.cc b/fcp/client/opstats/opstats_logger_impl.cc
index 6e1124b..972aa6b 100644
--- a/fcp/client/opstats/opstats_logger_impl.cc
+++ b/fcp/client/opstats/opstats_logger_impl.cc
@@ -225,7 +225,11 @@ absl::Status OpStatsLoggerImpl::CommitToStorage() {
   log_manager_->LogToLongHistogram(
       HistogramCounters::TRAINING_OPSTATS_COMMIT_LATENCY,
       absl::ToInt64Milliseconds(after_commit_time - before_commit_time));
-  already_committed_ = true;
+  // An entry that could not be stored must not be overwritten later, as the
+  // last entry in the db is then one from an earlier run.
+  if (status.ok()) {
+    already_committed_ = true;
+  }
   return status;
 }
 
-- 
2.43.0


From 7c043565694dc1bde7e71bb042db84bad3ae3e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:11 +0000
Subject: [PATCH 04/44] fix: keep the part of HTTP header values after the
 first colon

---
 fcp/client/http/curl/curl_header_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/client/http/curl/curl_header_parser.cc b/fcp/client/http/curl/curl_header_parser.cc
index 51836a5..87d5d35 100644
--- a/fcp/client/http/curl/curl_header_parser.cc
+++ b/fcp/client/http/curl/curl_header_parser.cc
@@ -69,7 +69,7 @@ bool CurlHeaderParser::ParseAsHeader(const std::string& header_string) {
   }
 
   std::pair<std::string, std::string> split =
-      absl::StrSplit(header_string, ':');
+      absl::StrSplit(header_string, absl::MaxSplits(':', 1));
   std::string key = split.first;
   std::string value = std::string(absl::StripAsciiWhitespace(split.second));
 
-- 
2.43.0


From ea1237a3643c69499a03f2bd08593d6577888787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:11 +0000
Subject: [PATCH 05/44] fix: reject client payloads whose header is truncated
 or malformed

---
 fcp/confidentialcompute/client_payload.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fcp/confidentialcompute/client_payload.cc b/fcp/confidentialcompute/client_payload.cc
index 04fbfbc..2f4eab8 100644
--- a/fcp/confidentialcompute/client_payload.cc
+++ b/fcp/confidentialcompute/client_payload.cc
@@ -87,9 +87,14 @@ absl::StatusOr<ClientPayloadHeader> DecodeAndConsumeClientPayloadHeader(
     return absl::InvalidArgumentError("Could not read 'size' varint64");
   }
 
-  auto limit = coded_in.PushLimit(serialized_payload_size);
+  if (serialized_payload_size >
+      encoded_data.size() - static_cast<size_t>(coded_in.CurrentPosition())) {
+    return absl::InvalidArgumentError("Payload header is truncated");
+  }
+  auto limit = coded_in.PushLimit(static_cast<int>(serialized_payload_size));
   AggregationClientPayloadHeader payload_header;
-  if (!payload_header.ParseFromCodedStream(&coded_in)) {
+  if (!payload_header.ParseFromCodedStream(&coded_in) ||
+      !coded_in.ConsumedEntireMessage()) {
     return absl::InvalidArgumentError("Could not parse serialized payload");
   }
   coded_in.PopLimit(limit);
-- 
2.43.0


From 279c57ace236997c397766213276f21eca948500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:36 +0000
Subject: [PATCH 06/44] fix: report failed flushes and reads in the file
 helpers

---
 fcp/base/platform.cc | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/fcp/base/platform.cc b/fcp/base/platform.cc
index 0f43c72..220df59 100644
--- a/fcp/base/platform.cc
+++ b/fcp/base/platform.cc
@@ -21,8 +21,8 @@
 
 #include <cstdio>
 #include <fstream>
-#include <sstream>
 #include <string>
+#include <utility>
 
 #include "absl/status/status.h"
 
@@ -66,13 +66,17 @@ absl::StatusOr<T> ReadFile(absl::string_view file_name) {
     return absl::InternalError(
         absl::StrCat("cannot read file ", file_name_str));
   }
-  std::ostringstream buffer;
-  buffer << is.rdbuf();
-  if (!is) {
+  std::string content;
+  char chunk[4096];
+  do {
+    is.read(chunk, sizeof(chunk));
+    content.append(chunk, is.gcount());
+  } while (is);
+  if (is.bad()) {
     return absl::InternalError(
         absl::StrCat("error reading file ", file_name_str));
   }
-  return static_cast<T>(buffer.str());
+  return static_cast<T>(std::move(content));
 }
 
 }  // namespace internal
@@ -94,6 +98,8 @@ absl::Status WriteStringToFile(absl::string_view file_name,
         absl::StrCat("cannot create file ", file_name_str));
   }
   os << content;
+  // Buffered data is only written out now, which can fail as well.
+  os.close();
   if (!os) {
     return absl::InternalError(
         absl::StrCat("error writing to file ", file_name_str));
@@ -116,6 +122,12 @@ absl::Status WriteCordToFile(absl::string_view file_name,
           absl::StrCat("error writing to file ", file_name_str));
     }
   }
+  // Buffered data is only written out now, which can fail as well.
+  os.close();
+  if (!os) {
+    return absl::InternalError(
+        absl::StrCat("error writing to file ", file_name_str));
+  }
   return absl::OkStatus();
 }
 
-- 
2.43.0


From 6857aad144f216ffd2fab8835278d46633f63dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:00 +0000
Subject: [PATCH 07/44] fix: drop SecAgg clients whose unmasking response has
 the wrong number of shares

The server indexed the list of key shares of an unmasking response by neighbor
without checking its length, so a short response crashed the server.
---
 fcp/secagg/server/secagg_server_protocol_impl.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fcp/secagg/server/secagg_server_protocol_impl.cc b/fcp/secagg/server/secagg_server_protocol_impl.cc
index cceb251..fc46e61 100644
--- a/fcp/secagg/server/secagg_server_protocol_impl.cc
+++ b/fcp/secagg/server/secagg_server_protocol_impl.cc
@@ -258,6 +258,14 @@ Status SecAggServerProtocolImpl::HandleUnmaskingResponse(
             self_shamir_share_table_ != nullptr)
       << "Shamir Shares Tables haven't been initialized";
 
+  // Verify the client sent exactly one entry for each of its neighbors.
+  if (unmasking_response.noise_or_prf_key_shares().size() !=
+      number_of_neighbors()) {
+    return ::absl::InvalidArgumentError(
+        "The UnmaskingResponse does not contain the expected number of key "
+        "shares.");
+  }
+
   // Verify the client sent all the right types of shares.
   for (uint32_t i = 0; i < number_of_neighbors(); ++i) {
     int ith_neighbor = GetNeighbor(client_id, i);
-- 
2.43.0


From 8d4959fe233591e7e30e98f2094c3c1fc2ae6d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:25 +0000
Subject: [PATCH 08/44] fix: abort the session on SecAgg key shares of the
 wrong size

Key shares sent by clients were passed to the reconstruction unchecked, which
terminates the process on shares of a wrong or differing size.
---
 .../server/secagg_server_protocol_impl.cc     | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/fcp/secagg/server/secagg_server_protocol_impl.cc b/fcp/secagg/server/secagg_server_protocol_impl.cc
index fc46e61..b209484 100644
--- a/fcp/secagg/server/secagg_server_protocol_impl.cc
+++ b/fcp/secagg/server/secagg_server_protocol_impl.cc
@@ -16,8 +16,10 @@
 
 #include "fcp/secagg/server/secagg_server_protocol_impl.h"
 
+#include <functional>
 #include <string>
 #include <utility>
+#include <vector>
 
 #include "absl/container/node_hash_map.h"
 #include "absl/status/status.h"
@@ -318,6 +320,25 @@ Status SecAggServerProtocolImpl::HandleUnmaskingResponse(
 // PRNG computation methods
 // -----------------------------------------------------------------------------
 
+// Verifies that the shares that are present all have the same size, and that it
+// is a size a share of a key may have. Shares come from the clients, and the
+// reconstruction relies on this.
+static Status CheckShareSizes(const std::vector<ShamirShare>& shares,
+                              const std::function<bool(size_t)>& is_valid) {
+  size_t size = 0;
+  for (const ShamirShare& share : shares) {
+    if (share.data.empty()) continue;
+    if (size == 0) size = share.data.size();
+    if (share.data.size() != size) {
+      return ::absl::InvalidArgumentError("Key shares differ in size");
+    }
+  }
+  if (!is_valid(size)) {
+    return ::absl::InvalidArgumentError("Key shares are missing or invalid");
+  }
+  return ::absl::OkStatus();
+}
+
 StatusOr<SecAggServerProtocolImpl::ShamirReconstructionResult>
 SecAggServerProtocolImpl::HandleShamirReconstruction() {
   FCP_CHECK(pairwise_shamir_share_table_ != nullptr &&
@@ -328,6 +349,9 @@ SecAggServerProtocolImpl::HandleShamirReconstruction() {
   ShamirSecretSharing reconstructor;
 
   for (const auto& item : *pairwise_shamir_share_table_) {
+    FCP_RETURN_IF_ERROR(CheckShareSizes(item.second, [](size_t size) {
+      return size > 0 && size <= 36 && size % 4 == 0;
+    }));
     FCP_ASSIGN_OR_RETURN(std::string reconstructed_key,
                          reconstructor.Reconstruct(
                              minimum_surviving_neighbors_for_reconstruction(),
@@ -346,6 +370,8 @@ SecAggServerProtocolImpl::HandleShamirReconstruction() {
   }
 
   for (const auto& item : *self_shamir_share_table_) {
+    FCP_RETURN_IF_ERROR(CheckShareSizes(
+        item.second, [](size_t size) { return size == 20 || size == 36; }));
     FCP_ASSIGN_OR_RETURN(
         AesKey reconstructed,
         AesKey::CreateFromShares(
-- 
2.43.0


From 68bad1bce702ec558fe09cdad780ae2a76565e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:07 +0000
Subject: [PATCH 09/44] fix: abandon a promise that is overwritten by move
 assignment

The defaulted move assignment dropped the old shared state without setting
it, so the future of an overwritten promise waited forever.
---
 fcp/base/future.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fcp/base/future.h b/fcp/base/future.h
index f464f49..14841f7 100644
--- a/fcp/base/future.h
+++ b/fcp/base/future.h
@@ -167,7 +167,13 @@ template <typename T>
 class Promise {
  public:
   Promise(Promise&&) = default;
-  Promise& operator=(Promise&&) = default;
+  Promise& operator=(Promise&& other) {
+    // Swap through a temporary, whose destruction abandons the promise that is
+    // being overwritten.
+    Promise moved(std::move(other));
+    std::swap(state_, moved.state_);
+    return *this;
+  }
 
   ~Promise() {
     if (state_.has_value()) {
-- 
2.43.0


From f5c013801eb0b755017a63a91131e2ad16a724c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:07 +0000
Subject: [PATCH 10/44] fix: de-register a host object whose registration is
 overwritten

The defaulted move assignment forgot the old token, so the object stayed
registered for the life of the process.
---
 fcp/tensorflow/host_object.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fcp/tensorflow/host_object.h b/fcp/tensorflow/host_object.h
index e7803ed..356fd4a 100644
--- a/fcp/tensorflow/host_object.h
+++ b/fcp/tensorflow/host_object.h
@@ -89,7 +89,14 @@ class HostObjectRegistryImpl {
 class HostObjectRegistration final {
  public:
   HostObjectRegistration(HostObjectRegistration&&) = default;
-  HostObjectRegistration& operator=(HostObjectRegistration&&) = default;
+  HostObjectRegistration& operator=(HostObjectRegistration&& other) {
+    // Swap through a temporary, whose destruction de-registers the object that
+    // was registered by this instance.
+    HostObjectRegistration moved(std::move(other));
+    std::swap(registry_, moved.registry_);
+    std::swap(token_, moved.token_);
+    return *this;
+  }
 
   ~HostObjectRegistration() {
     if (token_.has_value()) {
-- 
2.43.0


From 166fae3387d4ad12a47d6531e7090c1f96f3a8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:18 +0000
Subject: [PATCH 11/44] fix: do not fail when tracing races with the global
 recorder's destruction

A thread that looked up the global recorder while another thread was
releasing the last reference to it called shared_from_this() on an object
without owners and got std::bad_weak_ptr.  Use the default recorder then.
---
 fcp/tracing/tracing_recorder_impl.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fcp/tracing/tracing_recorder_impl.cc b/fcp/tracing/tracing_recorder_impl.cc
index cb9c7be..e12708a 100644
--- a/fcp/tracing/tracing_recorder_impl.cc
+++ b/fcp/tracing/tracing_recorder_impl.cc
@@ -52,8 +52,11 @@ class TracingState {
     TracingRecorderImpl* tracing_recorder =
         using_thread_local_state_ ? GetThreadLocalState().tracing_recorder
                                   : global_tracing_recorder_;
-    return tracing_recorder ? tracing_recorder->shared_from_this()
-                            : GetOrCreateDefaultRecorder();
+    // The recorder may have lost its last reference on another thread, whose
+    // destructor then waits for the mutex to uninstall it.
+    std::shared_ptr<TracingRecorderImpl> impl =
+        tracing_recorder ? tracing_recorder->weak_from_this().lock() : nullptr;
+    return impl ? impl : GetOrCreateDefaultRecorder();
   }
 
   void SetGlobalRecorderImpl(TracingRecorderImpl* impl) {
-- 
2.43.0


From cf2d2c2ae5c10f24e97575fe67a12180c90685c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:18 +0000
Subject: [PATCH 12/44] fix: keep all 64 bits of tracing span identifiers

The constructor took an int, so that identifiers drawn from the 64-bit
counter were cut to 32 bits and repeated once the counter passed them.
---
 fcp/tracing/tracing_span_id.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/tracing/tracing_span_id.h b/fcp/tracing/tracing_span_id.h
index b737ccc..79525c5 100644
--- a/fcp/tracing/tracing_span_id.h
+++ b/fcp/tracing/tracing_span_id.h
@@ -29,7 +29,7 @@ struct TracingSpanId {
 
   // Generates next unique id
   static TracingSpanId NextUniqueId();
-  explicit constexpr TracingSpanId(int id) : value(id) {}
+  explicit constexpr TracingSpanId(std::int64_t id) : value(id) {}
 
  private:
   static std::atomic<std::int64_t> id_source;
-- 
2.43.0


From 2a72e500ca3ccef097536d56b6300bc454627a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:11:00 +0000
Subject: [PATCH 13/44] fix: answer a truncated gzip request body with 400

gzip.decompress raises EOFError for a stream that ends early. The handler only
turned BadGzipFile and zlib.error into BAD_REQUEST, so such a request got no
response at all.
---
 fcp/demo/http_actions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/demo/http_actions.py b/fcp/demo/http_actions.py
index 503da70..ae04df9 100644
--- a/fcp/demo/http_actions.py
+++ b/fcp/demo/http_actions.py
@@ -243,7 +243,7 @@ def create_handler(*services: Any) -> Type[http.server.BaseHTTPRequestHandler]:
       if self.headers['Content-Encoding'] == 'gzip':
         try:
           body = gzip.decompress(body)
-        except (gzip.BadGzipFile, zlib.error) as e:
+        except (gzip.BadGzipFile, EOFError, zlib.error) as e:
           raise HttpError(http.HTTPStatus.BAD_REQUEST) from e
       elif self.headers['Content-Encoding']:
         logging.warning('Unsupported content encoding %s',
-- 
2.43.0


From 729cec00a91c2ae01aac6a7746dfd787e46899b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:11:00 +0000
Subject: [PATCH 14/44] fix: refuse path arguments that are not UTF-8

The handlers answer a UnicodeError with BAD_REQUEST, but unquote() replaces
undecodable bytes unless told to be strict, so the request was served with a
different name.
---
 fcp/demo/http_actions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fcp/demo/http_actions.py b/fcp/demo/http_actions.py
index ae04df9..23b99ca 100644
--- a/fcp/demo/http_actions.py
+++ b/fcp/demo/http_actions.py
@@ -112,7 +112,7 @@ def proto_action(*,
     # Set any fields from the request path.
     for prop, value in match.groupdict().items():
       try:
-        unescaped = urllib.parse.unquote(value)
+        unescaped = urllib.parse.unquote(value, errors='strict')
       except UnicodeError as e:
         raise HttpError(code=http.HTTPStatus.BAD_REQUEST) from e
       setattr(request, prop, unescaped)
@@ -162,7 +162,10 @@ def http_action(*, method: str,
   def handler(match: Match[str], body: bytes,
               fn: Callable[[bytes], HttpResponse]) -> HttpResponse:
     try:
-      args = {k: urllib.parse.unquote(v) for k, v in match.groupdict().items()}
+      args = {
+          k: urllib.parse.unquote(v, errors='strict')
+          for k, v in match.groupdict().items()
+      }
     except UnicodeError as e:
       raise HttpError(code=http.HTTPStatus.BAD_REQUEST) from e
     return fn(body, **args)
-- 
2.43.0


From 3e96f2268cf10c491d1c0fe46f73f6f69ed3cc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:20:50 +0000
Subject: [PATCH 15/44] fix: map the protocol's close codes to HTTP statuses

_get_http_status() compares with absl StatusCode members, but the close message
carries a plain integer, so a client whose input was refused as invalid was
told INTERNAL_SERVER_ERROR instead of BAD_REQUEST.
---
 fcp/demo/aggregations.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fcp/demo/aggregations.py b/fcp/demo/aggregations.py
index e74b308..d22ceac 100644
--- a/fcp/demo/aggregations.py
+++ b/fcp/demo/aggregations.py
@@ -432,7 +432,9 @@ class Service:
         self._media_service.finalize_upload(request.resource_name)
       raise http_actions.HttpError(
           self._get_http_status(
-              close_message.simple_aggregation.close_message.code
+              absl_status.StatusCodeFromInt(
+                  close_message.simple_aggregation.close_message.code
+              )
           )
       )
 
@@ -477,7 +479,9 @@ class Service:
         client_data.client_id
     ).simple_aggregation.close_message.code
     if close_status != absl_status.StatusCode.OK.value:
-      raise http_actions.HttpError(self._get_http_status(close_status))
+      raise http_actions.HttpError(
+          self._get_http_status(absl_status.StatusCodeFromInt(close_status))
+      )
 
     # Check for any newly-satisfied pending wait operations.
     with self._sessions_lock:
-- 
2.43.0


From 9292bee03199b74ee02502ab8649cdae833aadfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:39 +0000
Subject: [PATCH 16/44] fix: keep a client that submits a wrong resource name

The client was forgotten before its resource name was compared, so neither the
client nor the session's cleanup could release its upload any more.
---
 fcp/demo/aggregations.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fcp/demo/aggregations.py b/fcp/demo/aggregations.py
index d22ceac..24dc49d 100644
--- a/fcp/demo/aggregations.py
+++ b/fcp/demo/aggregations.py
@@ -415,14 +415,14 @@ class Service:
       except KeyError as e:
         raise http_actions.HttpError(http.HTTPStatus.NOT_FOUND) from e
       try:
-        client_data = state.active_clients.pop(request.client_token)
+        client_data = state.active_clients[request.client_token]
       except KeyError as e:
         raise http_actions.HttpError(http.HTTPStatus.UNAUTHORIZED) from e
-
-    # Ensure the client is using the resource name provided when they called
-    # StartAggregationDataUpload.
-    if request.resource_name != client_data.resource_name:
-      raise http_actions.HttpError(http.HTTPStatus.BAD_REQUEST)
+      # Ensure the client is using the resource name provided when they called
+      # StartAggregationDataUpload.
+      if request.resource_name != client_data.resource_name:
+        raise http_actions.HttpError(http.HTTPStatus.BAD_REQUEST)
+      del state.active_clients[request.client_token]
 
     # The aggregation protocol may have already closed the connect (e.g., if
     # an error occurred). If so, clean up the upload and return the error.
-- 
2.43.0


From 532db41ebbd9c15a63f389f599a71388cca9b22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:11 +0000
Subject: [PATCH 17/44] fix: release the upload of a client that starts while
 its session ends

A session that is completed or aborted between the redemption of the token and
the registration of the client never learns of the upload, which then stayed
registered for good.
---
 fcp/demo/aggregations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fcp/demo/aggregations.py b/fcp/demo/aggregations.py
index 24dc49d..6cb8703 100644
--- a/fcp/demo/aggregations.py
+++ b/fcp/demo/aggregations.py
@@ -385,6 +385,11 @@ class Service:
     upload_name = self._media_service.register_upload()
 
     with self._sessions_lock:
+      # If the session has ended in the meantime, its cleanup won't release this
+      # upload.
+      if request.aggregation_id not in self._sessions:
+        self._media_service.finalize_upload(upload_name)
+        raise http_actions.HttpError(http.HTTPStatus.NOT_FOUND)
       state.active_clients[client_token] = _ActiveClientData(
           client_id, upload_name
       )
-- 
2.43.0


From e12bcd2248201344467d144774fad8c9e37b10d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:06 +0000
Subject: [PATCH 18/44] fix: tell each wait on an aggregation session its
 result once

A submission that satisfies a wait while the session is being completed or
aborted could hand the same future two results, or change the set of waits
while the cleanup went through it.
---
 fcp/demo/aggregations.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/fcp/demo/aggregations.py b/fcp/demo/aggregations.py
index 6cb8703..74ced82 100644
--- a/fcp/demo/aggregations.py
+++ b/fcp/demo/aggregations.py
@@ -356,12 +356,13 @@ class Service:
       self._media_service.finalize_upload(client_data.resource_name)
     state.active_clients.clear()
     # Anyone waiting on the session should be notified that it's finished.
-    if state.pending_waits:
-      status = self._get_session_status(state)
-      for data in state.pending_waits:
-        data.loop.call_soon_threadsafe(
-            functools.partial(data.status_future.set_result, status))
-      state.pending_waits.clear()
+    with self._sessions_lock:
+      if state.pending_waits:
+        status = self._get_session_status(state)
+        for data in state.pending_waits:
+          data.loop.call_soon_threadsafe(
+              functools.partial(data.status_future.set_result, status))
+        state.pending_waits.clear()
 
   @http_actions.proto_action(
       service='google.internal.federatedcompute.v1.Aggregations',
-- 
2.43.0


From 35901fc1944d0bbb7089af003e7c0bd483e6b52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:43 +0000
Subject: [PATCH 19/44] fix: percent-encode bytes below 0x10 with two hex
 digits

---
 fcp/client/http/http_client_util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/client/http/http_client_util.cc b/fcp/client/http/http_client_util.cc
index f5d24b8..8b91f2e 100644
--- a/fcp/client/http/http_client_util.cc
+++ b/fcp/client/http/http_client_util.cc
@@ -137,7 +137,7 @@ absl::StatusOr<std::string> PercentEncode(
       continue;
     }
     // Any other character is percent-encoded.
-    result.append(absl::StrFormat("%%%X", c));
+    result.append(absl::StrFormat("%%%02X", c));
   }
   return result;
 }
-- 
2.43.0


From ee0ef74b2d5110b7a573613a705348c0bb50a93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:43 +0000
Subject: [PATCH 20/44] fix: look for the closing bracket of an attestation
 line after the opening one

A '>' earlier in a log line made the length of the piece underflow.
---
 fcp/client/attestation/extract_attestation_records.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/client/attestation/extract_attestation_records.cc b/fcp/client/attestation/extract_attestation_records.cc
index 4369876..060004c 100644
--- a/fcp/client/attestation/extract_attestation_records.cc
+++ b/fcp/client/attestation/extract_attestation_records.cc
@@ -43,7 +43,7 @@ std::optional<absl::string_view> ExtractSerializedChunk(absl::string_view line,
                                                         int line_num) {
   auto fcp_attest_marker = line.find("fcp.attest");
   auto start_bracket = line.find('<');
-  auto end_bracket = line.find('>');
+  auto end_bracket = line.find('>', start_bracket);
   if (fcp_attest_marker == std::string::npos ||
       start_bracket == std::string::npos) {
     return std::nullopt;
-- 
2.43.0


From 53f87fd615e5ccca05c4c093315bc6cff16e5c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:43 +0000
Subject: [PATCH 21/44] fix: keep appending to the message of a copied
 StatusBuilder

Streaming into a copy overwrote the beginning of the message.
---
 fcp/base/monitoring.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/base/monitoring.cc b/fcp/base/monitoring.cc
index 2924154..6d5b090 100644
--- a/fcp/base/monitoring.cc
+++ b/fcp/base/monitoring.cc
@@ -32,7 +32,7 @@ StatusBuilder::StatusBuilder(StatusBuilder const& other)
     : file_(other.file_),
       line_(other.line_),
       code_(other.code_),
-      message_(other.message_.str()) {}
+      message_(other.message_.str(), std::ios_base::ate) {}
 
 StatusBuilder::operator Status() {
   auto message_str = message_.str();
-- 
2.43.0


From 8740b773e92c6709c5d048eaebeef2d30eb237f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:43 +0000
Subject: [PATCH 22/44] fix: record failures of ExpectFalse under its own name

---
 fcp/base/result.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/base/result.h b/fcp/base/result.h
index 6d2bdd2..31502fa 100644
--- a/fcp/base/result.h
+++ b/fcp/base/result.h
@@ -323,7 +323,7 @@ struct ExpectFalse : public ExpectBase {
     if (!b) {
       return Unit{};
     } else {
-      return TraceExpectError("ExpectTrue");
+      return TraceExpectError("ExpectFalse");
     }
   }
 };
-- 
2.43.0


From 49bc546bcf160fb5b5a9189cf9bc98a98bc9116a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:36 +0000
Subject: [PATCH 23/44] fix: Report slices whose last buffered bytes cannot be
 written

The stream's buffer is written out when it is closed. A failure at that point
went unnoticed and a truncated slice was handed to the plan as if complete.
---
 fcp/client/federated_select.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fcp/client/federated_select.cc b/fcp/client/federated_select.cc
index 58a3e5a..8d2f4ff 100644
--- a/fcp/client/federated_select.cc
+++ b/fcp/client/federated_select.cc
@@ -284,7 +284,11 @@ absl::StatusOr<std::string> InMemoryFederatedSelectExampleIterator::Next() {
       return absl::InternalError("Failed to write slice to file");
     }
   }
+  // Closing the stream writes any data that is still buffered, which can fail.
   checkpoint_stream.close();
+  if (checkpoint_stream.fail()) {
+    return absl::InternalError("Failed to write slice to file");
+  }
 
   // Remove the slice from the deque, releasing its data from memory.
   slices_.pop_front();
-- 
2.43.0


From e16d78774182815702a34de2706c060bf7a3093a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:36 +0000
Subject: [PATCH 24/44] fix: Reject COSE_Sign tokens with malformed signatures

Decoding a CWT crashed when the first COSE_Signature was not an array, or when
its signature was not a byte string. Such tokens are invalid arguments.
---
 fcp/confidentialcompute/cose.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fcp/confidentialcompute/cose.cc b/fcp/confidentialcompute/cose.cc
index 7032674..5146088 100644
--- a/fcp/confidentialcompute/cose.cc
+++ b/fcp/confidentialcompute/cose.cc
@@ -469,8 +469,9 @@ absl::StatusOr<OkpCwt> OkpCwt::Decode(absl::string_view encoded) {
       // which is a (protected header, unprotected header, signature) tuple.
       if (cppbor::Array* sigs = component->asArray(); sigs->size() > 0) {
         if (cppbor::Array* sig = sigs->get(0)->asArray();
-            sig->size() == 3 && sig->get(0)->type() == cppbor::BSTR &&
-            sig->get(0)->type() == cppbor::BSTR) {
+            sig != nullptr && sig->size() == 3 &&
+            sig->get(0)->type() == cppbor::BSTR &&
+            sig->get(2)->type() == cppbor::BSTR) {
           parsed_signature_and_protected_header = true;
           FCP_RETURN_IF_ERROR(
               ParseCwtProtectedHeader(sig->get(0)->asBstr()->value(), cwt));
-- 
2.43.0


From 3e550aac4a70daa7ff040680e7f9f7a66a496741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:29 +0000
Subject: [PATCH 25/44] fix: Record a cached resource only after its file was
 written

The manifest entry was written before the file. When writing the file failed or
was interrupted, the entry stayed behind, and the truncated file was served by
later calls of Get.
---
 fcp/client/cache/file_backed_resource_cache.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/fcp/client/cache/file_backed_resource_cache.cc b/fcp/client/cache/file_backed_resource_cache.cc
index d71b97c..6b9aae8 100644
--- a/fcp/client/cache/file_backed_resource_cache.cc
+++ b/fcp/client/cache/file_backed_resource_cache.cc
@@ -182,11 +182,6 @@ absl::Status FileBackedResourceCache::Put(absl::string_view cache_id,
   *cached_resource.mutable_last_accessed_time() =
       TimeUtil::ConvertAbslToProtoTimestamp(now);
 
-  // Write the manifest back to disk before we write the file.
-  manifest.mutable_cache()->insert({cache_id_str, cached_resource});
-  FCP_RETURN_IF_ERROR(
-      WriteInternal(std::make_unique<CacheManifest>(std::move(manifest))));
-
   // Write file if it doesn't exist.
   std::error_code exists_error;
   bool cached_file_exists =
@@ -206,6 +201,13 @@ absl::Status FileBackedResourceCache::Put(absl::string_view cache_id,
     }
   }
 
+  // Write the manifest back to disk only after the file was written in full, so
+  // that an interrupted or failed write never leaves an entry for a truncated
+  // file behind. A file without an entry is removed by the next CleanUp().
+  manifest.mutable_cache()->insert({cache_id_str, cached_resource});
+  FCP_RETURN_IF_ERROR(
+      WriteInternal(std::make_unique<CacheManifest>(std::move(manifest))));
+
   return absl::OkStatus();
 }
 
-- 
2.43.0


From 5a7f0d78ffbe73fab051c6cb2095835afe7e18e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:40:23 +0000
Subject: [PATCH 26/44] fix: Overwrite resources that are already cached

Putting a resource under an identifier that was in the cache kept the old file
and the old metadata while reporting success, although the interface promises
that both are overwritten.
---
 .../cache/file_backed_resource_cache.cc       | 29 +++++++------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/fcp/client/cache/file_backed_resource_cache.cc b/fcp/client/cache/file_backed_resource_cache.cc
index 6b9aae8..6bb282c 100644
--- a/fcp/client/cache/file_backed_resource_cache.cc
+++ b/fcp/client/cache/file_backed_resource_cache.cc
@@ -168,9 +168,15 @@ absl::Status FileBackedResourceCache::Put(absl::string_view cache_id,
   }
 
   FCP_ASSIGN_OR_RETURN(CacheManifest manifest, ReadInternal());
+  std::string cache_id_str(cache_id);
+  // If this overwrites a resource, drop its manifest entry before touching its
+  // file, so that the old entry never points at (parts of) the new resource.
+  if (manifest.mutable_cache()->erase(cache_id_str) > 0) {
+    FCP_RETURN_IF_ERROR(
+        WriteInternal(std::make_unique<CacheManifest>(manifest)));
+  }
   FCP_RETURN_IF_ERROR(CleanUp(resource.size(), manifest));
 
-  std::string cache_id_str(cache_id);
   std::filesystem::path cached_file_path = cache_dir_path_ / cache_id_str;
   absl::Time now = clock_.Now();
   absl::Time expiry = now + max_age;
@@ -182,23 +188,10 @@ absl::Status FileBackedResourceCache::Put(absl::string_view cache_id,
   *cached_resource.mutable_last_accessed_time() =
       TimeUtil::ConvertAbslToProtoTimestamp(now);
 
-  // Write file if it doesn't exist.
-  std::error_code exists_error;
-  bool cached_file_exists =
-      std::filesystem::exists(cached_file_path, exists_error);
-  if (exists_error.value() != 0) {
-    log_manager_.LogDiag(
-        ProdDiagCode::RESOURCE_CACHE_PUT_FAILED_TO_CHECK_IF_FILE_EXISTS);
-    return absl::InternalError(absl::StrCat(
-        "Failed to check if cached resource already exists with error code: ",
-        exists_error.value()));
-  }
-  if (!cached_file_exists) {
-    auto status = WriteCordToFile(cached_file_path.string(), resource);
-    if (!status.ok()) {
-      log_manager_.LogDiag(ProdDiagCode::RESOURCE_CACHE_RESOURCE_WRITE_FAILED);
-      return status;
-    }
+  auto status = WriteCordToFile(cached_file_path.string(), resource);
+  if (!status.ok()) {
+    log_manager_.LogDiag(ProdDiagCode::RESOURCE_CACHE_RESOURCE_WRITE_FAILED);
+    return status;
   }
 
   // Write the manifest back to disk only after the file was written in full, so
-- 
2.43.0


From 7330ff4a4aa6191afa9169ee4a658fba26bf6eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:16 +0000
Subject: [PATCH 27/44] fix: Derive the earliest trustworthy time from phase
 stats as well

When entries were dropped to keep the OpStats database within its size limit,
the earliest trustworthy time was taken from the first remaining entry with
top-level events. Entries written with phase stats have none, so the time
became "now", and every policy that needs a trustworthy history failed.
---
 fcp/client/opstats/pds_backed_opstats_db.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fcp/client/opstats/pds_backed_opstats_db.cc b/fcp/client/opstats/pds_backed_opstats_db.cc
index 09dac40..12f8447 100644
--- a/fcp/client/opstats/pds_backed_opstats_db.cc
+++ b/fcp/client/opstats/pds_backed_opstats_db.cc
@@ -170,8 +170,12 @@ absl::Time GetLastUpdateTime(const OperationalStats& operational_stats) {
   ::google::protobuf::Timestamp timestamp = TimeUtil::GetCurrentTime();
   for (const auto& stat : op_stats) {
     if (!stat.events().empty()) {
-      timestamp = stat.events().begin()->timestamp();
-      break;
+      return stat.events().begin()->timestamp();
+    }
+    for (const auto& phase_stat : stat.phase_stats()) {
+      if (!phase_stat.events().empty()) {
+        return phase_stat.events().begin()->timestamp();
+      }
     }
   }
   return timestamp;
-- 
2.43.0


From 944f5ffc70d783c5378056c8a451441eb969a9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:16 +0000
Subject: [PATCH 28/44] fix: Do not move the earliest trustworthy time back
 when purging

Purging outdated entries set the earliest trustworthy time to the oldest time
still accepted, even if the database was created or reset later than that. An
entry without events counts as outdated, so this could happen at any time, and
the database then vouched for a period it knows nothing about.
---
 fcp/client/opstats/pds_backed_opstats_db.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fcp/client/opstats/pds_backed_opstats_db.cc b/fcp/client/opstats/pds_backed_opstats_db.cc
index 12f8447..996738a 100644
--- a/fcp/client/opstats/pds_backed_opstats_db.cc
+++ b/fcp/client/opstats/pds_backed_opstats_db.cc
@@ -193,9 +193,13 @@ void RemoveOutdatedData(OpStatsSequence& data, absl::Duration ttl) {
       op_stats->end());
   int64_t num_entries_after_purging = op_stats->size();
   if (num_entries_after_purging < original_num_entries) {
-    *(data.mutable_earliest_trustworthy_time()) =
+    ::google::protobuf::Timestamp earliest_accepted_timestamp =
         TimeUtil::MillisecondsToTimestamp(
             absl::ToUnixMillis(earliest_accepted_time));
+    // Never claim more history than was trustworthy before.
+    if (data.earliest_trustworthy_time() < earliest_accepted_timestamp) {
+      *data.mutable_earliest_trustworthy_time() = earliest_accepted_timestamp;
+    }
   }
 }
 
-- 
2.43.0


From 94707ba909f14a29d92e419f2fa88644c80f3589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:29 +0000
Subject: [PATCH 29/44] fix: Keep the minimum separation index of entries with
 phase stats

The index of the last contribution was lost when an entry with phase stats was
converted, so the minimum separation policy found no earlier contribution and
let the device take part in every round.
---
 fcp/client/opstats/opstats_utils.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/fcp/client/opstats/opstats_utils.cc b/fcp/client/opstats/opstats_utils.cc
index 408e42c..d281419 100644
--- a/fcp/client/opstats/opstats_utils.cc
+++ b/fcp/client/opstats/opstats_utils.cc
@@ -16,6 +16,7 @@
 
 #include "fcp/client/opstats/opstats_utils.h"
 
+#include <algorithm>
 #include <algorithm>
 #include <cstdint>
 #include <functional>
@@ -187,6 +188,16 @@ std::vector<OperationalStats> ConvertToLegacyOperationalStats(
       legacy_op_stats.push_back(CreateLegacyOperationalStats(
           op_stats.population_name(), op_stats.session_name(),
           op_stats.retry_window(), task_stats));
+      // The index belongs to the task that was assigned by the regular checkin.
+      if (op_stats.has_min_sep_policy_index() &&
+          std::any_of(task_stats.begin(), task_stats.end(),
+                      [](const OperationalStats::PhaseStats& phase_stats) {
+                        return phase_stats.phase() ==
+                               OperationalStats::PhaseStats::CHECKIN;
+                      })) {
+        legacy_op_stats.back().set_min_sep_policy_index(
+            op_stats.min_sep_policy_index());
+      }
     }
   }
   return legacy_op_stats;
-- 
2.43.0


From e1e221de33d4b0835c0cf9d2762f5ea07bdea575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:29 +0000
Subject: [PATCH 30/44] fix: Add the first access times of datasets to OpStats
 examples

They were collected, but the feature declared for them was never set.
---
 fcp/client/opstats/opstats_example_store.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fcp/client/opstats/opstats_example_store.cc b/fcp/client/opstats/opstats_example_store.cc
index 38c1ae2..b568be0 100644
--- a/fcp/client/opstats/opstats_example_store.cc
+++ b/fcp/client/opstats/opstats_example_store.cc
@@ -117,6 +117,8 @@ std::string CreateExample(const OperationalStats& op_stats,
       CreateFeatureFromIntVector(num_examples_read);
   (*feature_map)[kDatasetStatsNumBytesRead] =
       CreateFeatureFromIntVector(num_bytes_read);
+  (*feature_map)[kDatasetStatsFirstAccessTimestamp] =
+      CreateFeatureFromIntVector(first_access_time_millis);
 
   (*feature_map)[kErrorMessage] =
       CreateFeatureFromString(op_stats.error_message());
-- 
2.43.0


From c917bdd97ad5c1df729041b085fafdbfccd9a0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:29 +0000
Subject: [PATCH 31/44] fix: Write bytes vectors of example queries to the
 checkpoint

The string values, of which there are none, were copied instead, and the slice
writer then read past the end of the empty vector.
---
 fcp/client/engine/example_query_plan_engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/client/engine/example_query_plan_engine.cc b/fcp/client/engine/example_query_plan_engine.cc
index bbbe1b2..8acd25e 100644
--- a/fcp/client/engine/example_query_plan_engine.cc
+++ b/fcp/client/engine/example_query_plan_engine.cc
@@ -176,7 +176,7 @@ absl::Status WriteCheckpoint(
             output_vector_spec, ExampleQuerySpec::OutputVectorSpec::BYTES));
         int64_t size = values.bytes_values().value_size();
         std::vector<tf::tstring> tf_string_vector;
-        for (const auto& value : values.string_values().value()) {
+        for (const auto& value : values.bytes_values().value()) {
           tf_string_vector.emplace_back(value);
         }
         FCP_RETURN_IF_ERROR(WriteSlice(slice_writer, output_name, size,
-- 
2.43.0


From 181f76a53a9d75f1af0396321bed6f1f713aaa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:55 +0000
Subject: [PATCH 32/44] fix: Keep eligibility policies with the same name apart

The tasks of a policy were looked up by its name, so of several policies with
the same name only the last one's tasks were considered, for all of them. Tasks
could be found eligible although a policy that applies to them was never
evaluated.
---
 fcp/client/eligibility_decider.cc | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/fcp/client/eligibility_decider.cc b/fcp/client/eligibility_decider.cc
index c205afe..a00205b 100644
--- a/fcp/client/eligibility_decider.cc
+++ b/fcp/client/eligibility_decider.cc
@@ -419,15 +419,15 @@ absl::StatusOr<TaskEligibilityInfo> ComputeEligibility(
   // unfilled.
   TaskEligibilityInfo eligibility_result;
 
-  // Initialize map of policy name -> task names that use that policy, and check
-  // that the implementation versions for each policy are supported by the
-  // client.
-  // This map must only contain names of policies that are implemented.
-  absl::flat_hash_map<std::string, absl::flat_hash_set<std::string>>
-      policy_name_to_task_names;
+  // Initialize map of policy index -> task names that use that policy, and
+  // check that the implementation versions for each policy are supported by the
+  // client. Note that several policies may have the same name.
+  // This map must only contain indices of policies that are implemented.
+  absl::flat_hash_map<int, absl::flat_hash_set<std::string>>
+      policy_index_to_task_names;
 
   // Track task names that use unimplemented policies. After we build the policy
-  // name -> task name map, we'll prune any task names that use unimplemented
+  // index -> task name map, we'll prune any task names that use unimplemented
   // policies. We can't do this until after we've built the whole map.
   absl::flat_hash_set<std::string> task_names_using_unimplemented_policies;
 
@@ -498,7 +498,7 @@ absl::StatusOr<TaskEligibilityInfo> ComputeEligibility(
     if (!policy_implemented) {
       continue;
     }
-    policy_name_to_task_names[policy_spec.name()] = task_names;
+    policy_index_to_task_names[policy_index] = task_names;
   }
 
   // Initialize the list of task names to compute eligibility for. Task names
@@ -524,7 +524,7 @@ absl::StatusOr<TaskEligibilityInfo> ComputeEligibility(
   // For each policy:
   // 1. If eligible tasks is now empty due to the previous iteration, quit
   // early.
-  // 2. Get task names from policy_name_to_task_names.
+  // 2. Get task names from policy_index_to_task_names.
   // 3. Intersect with eligible_tasks to get the set of tasks names that we
   // should use to compute eligibility for this policy.
   // 4. Call compute x policy, get back a set of task names. This set will only
@@ -533,24 +533,27 @@ absl::StatusOr<TaskEligibilityInfo> ComputeEligibility(
   // 5. Remove all tasks from eligible_tasks that are not eligible according to
   // the policy computation.
 
-  for (const EligibilityPolicyEvalSpec& policy_spec :
-       population_eligibility_spec.eligibility_policies()) {
+  for (int policy_index = 0;
+       policy_index < population_eligibility_spec.eligibility_policies_size();
+       policy_index++) {
+    const EligibilityPolicyEvalSpec& policy_spec =
+        population_eligibility_spec.eligibility_policies(policy_index);
     // Check if there are no more eligible tasks due to previous policy
     // computations. If so, there's no point in continuing to evaluate policies.
     if (eligible_tasks.empty()) {
       break;
     }
 
-    // policy_name_to_task_names contains our map of *implemented* policies to
+    // policy_index_to_task_names contains our map of *implemented* policies to
     // the tasks that use them. First check if it's in the map. If not, there's
     // no point in evaulating this policy.
-    if (!policy_name_to_task_names.contains(policy_spec.name())) {
+    if (!policy_index_to_task_names.contains(policy_index)) {
       continue;
     }
 
     // The task names this policy applies to.
     absl::flat_hash_set<std::string> policy_task_names =
-        policy_name_to_task_names.at(policy_spec.name());
+        policy_index_to_task_names.at(policy_index);
     // Remove those tasks that already aren't eligible anymore.
     absl::erase_if(policy_task_names,
                    [&eligible_tasks](const std::string& policy_task_name) {
-- 
2.43.0


From 07d42b39fed24c7ffe73b4c1ee8b179d415715bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:09:55 +0000
Subject: [PATCH 33/44] fix: Write every output of an example query

The outputs were keyed by the name of the vector they are taken from, so when
two outputs use the same vector only one of them was written.
---
 .../engine/example_query_plan_engine.cc       | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/fcp/client/engine/example_query_plan_engine.cc b/fcp/client/engine/example_query_plan_engine.cc
index 8acd25e..8f2f498 100644
--- a/fcp/client/engine/example_query_plan_engine.cc
+++ b/fcp/client/engine/example_query_plan_engine.cc
@@ -24,7 +24,6 @@
 #include <utility>
 #include <vector>
 
-#include "absl/container/flat_hash_map.h"
 #include "absl/status/status.h"
 #include "absl/status/statusor.h"
 #include "fcp/base/monitoring.h"
@@ -76,19 +75,20 @@ absl::Status WriteSlice(tf::checkpoint::TensorSliceWriter& slice_writer,
   return slice_writer.Add(name, shape, slice, data);
 }
 
-// Returns a map of (vector name) -> tuple(output name, vector spec).
-absl::flat_hash_map<std::string,
-                    std::tuple<std::string, ExampleQuerySpec::OutputVectorSpec>>
+// Returns pairs of (vector name, tuple(output name, vector spec)). A vector may
+// be used by more than one output.
+std::vector<std::pair<
+    std::string, std::tuple<std::string, ExampleQuerySpec::OutputVectorSpec>>>
 GetOutputVectorSpecs(const ExampleQuerySpec::ExampleQuery& example_query) {
-  absl::flat_hash_map<
-      std::string, std::tuple<std::string, ExampleQuerySpec::OutputVectorSpec>>
-      map;
+  std::vector<std::pair<
+      std::string, std::tuple<std::string, ExampleQuerySpec::OutputVectorSpec>>>
+      specs;
   for (auto const& [output_name, output_vector_spec] :
        example_query.output_vector_specs()) {
-    map[output_vector_spec.vector_name()] =
-        std::make_tuple(output_name, output_vector_spec);
+    specs.emplace_back(output_vector_spec.vector_name(),
+                       std::make_tuple(output_name, output_vector_spec));
   }
-  return map;
+  return specs;
 }
 
 absl::Status CheckOutputVectorDataType(
-- 
2.43.0


From 1330781739def057ad33cc0e162eab7870fc715d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:58:03 +0000
Subject: [PATCH 34/44] fix: Refuse a quantized tensor reported through simple
 or confidential aggregation

With the report format untied from the lightweight flag, a single quantized
tensor passed the format check. The upload was started and the process then
ended on std::get of the wrong type. Return an error before any request.
---
 fcp/client/http/http_federated_protocol.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fcp/client/http/http_federated_protocol.cc b/fcp/client/http/http_federated_protocol.cc
index 044f1b3..b23f95d 100644
--- a/fcp/client/http/http_federated_protocol.cc
+++ b/fcp/client/http/http_federated_protocol.cc
@@ -1199,6 +1199,11 @@ absl::Status HttpFederatedProtocol::ReportViaSimpleOrConfidentialAggregation(
           " computation produced FC Wire Format but this feature is "
           "not enabled."));
     }
+    if (!std::holds_alternative<TFCheckpoint>(result) &&
+        !std::holds_alternative<FCCheckpoint>(result)) {
+      return absl::InternalError(absl::StrCat(
+          aggregation_type_readable, " aggregands have unexpected format."));
+    }
   }
   auto start_upload_status = HandleStartDataAggregationUploadOperationResponse(
       PerformStartDataUploadRequestAndReportTaskResult(plan_duration,
-- 
2.43.0


From 82d778c51a5a9651220064fdbaeb7d4cdd302ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:20:35 +0000
Subject: [PATCH 35/44] fix: Guard the server response handed over between
 threads in secure aggregation over HTTP

When a session is interrupted, the abort message is sent from the interrupting
thread. Storing its response raced with the session thread reading the
previous one, which could copy a status or message while it was replaced.
---
 .../http/http_secagg_send_to_server_impl.cc   | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/fcp/client/http/http_secagg_send_to_server_impl.cc b/fcp/client/http/http_secagg_send_to_server_impl.cc
index 7859265..3c9329c 100644
--- a/fcp/client/http/http_secagg_send_to_server_impl.cc
+++ b/fcp/client/http/http_secagg_send_to_server_impl.cc
@@ -26,12 +26,15 @@
 
 #include "google/protobuf/any.pb.h"
 #include "google/rpc/code.pb.h"
+#include "absl/base/attributes.h"
+#include "absl/base/const_init.h"
 #include "absl/memory/memory.h"
 #include "absl/status/status.h"
 #include "absl/status/statusor.h"
 #include "absl/strings/str_cat.h"
 #include "absl/strings/string_view.h"
 #include "absl/strings/substitute.h"
+#include "absl/synchronization/mutex.h"
 #include "absl/time/time.h"
 #include "fcp/base/clock.h"
 #include "fcp/base/monitoring.h"
@@ -61,6 +64,11 @@ using ::google::internal::federatedcompute::v1::UnmaskRequest;
 using ::google::longrunning::Operation;
 
 namespace {
+// Guards the server response holders. An interruption sends the abort message
+// from another thread than the one which reads the responses, so storing and
+// reading a response must not overlap. Only held for the hand-over itself.
+ABSL_CONST_INIT absl::Mutex server_response_holder_mutex(absl::kConstInit);
+
 absl::StatusOr<std::string> CreateAbortSecureAggregationUriSuffix(
     absl::string_view aggregation_id, absl::string_view client_token) {
   constexpr absl::string_view pattern =
@@ -195,25 +203,23 @@ void HttpSecAggSendToServerImpl::Send(
     secagg::ClientToServerWrapperMessage* message) {
   absl::StatusOr<secagg::ServerToClientWrapperMessage> server_message;
   if (message->has_advertise_keys()) {
-    server_response_holder_ =
-        DoR0AdvertiseKeys(std::move(message->advertise_keys()));
+    server_message = DoR0AdvertiseKeys(std::move(message->advertise_keys()));
   } else if (message->has_share_keys_response()) {
-    server_response_holder_ =
-        DoR1ShareKeys(std::move(message->share_keys_response()));
+    server_message = DoR1ShareKeys(std::move(message->share_keys_response()));
   } else if (message->has_masked_input_response()) {
-    server_response_holder_ = DoR2SubmitSecureAggregationResult(
+    server_message = DoR2SubmitSecureAggregationResult(
         std::move(message->masked_input_response()));
   } else if (message->has_unmasking_response()) {
-    server_response_holder_ =
-        DoR3Unmask(std::move(message->unmasking_response()));
+    server_message = DoR3Unmask(std::move(message->unmasking_response()));
   } else if (message->has_abort()) {
-    server_response_holder_ =
-        AbortSecureAggregation(std::move(message->abort()));
+    server_message = AbortSecureAggregation(std::move(message->abort()));
   } else {
     // When the protocol succeeds, the ClientToServerWrapperMessage will be
     // empty, and we'll just set the empty server message.
-    server_response_holder_ = secagg::ServerToClientWrapperMessage();
+    server_message = secagg::ServerToClientWrapperMessage();
   }
+  absl::MutexLock lock(&server_response_holder_mutex);
+  server_response_holder_ = std::move(server_message);
 }
 
 absl::StatusOr<secagg::ServerToClientWrapperMessage>
@@ -441,6 +447,7 @@ absl::StatusOr<uint64_t> HttpSecAggProtocolDelegate::GetModulus(
 
 absl::StatusOr<secagg::ServerToClientWrapperMessage>
 HttpSecAggProtocolDelegate::ReceiveServerMessage() {
+  absl::MutexLock lock(&server_response_holder_mutex);
   return server_response_holder_;
 }
 
@@ -449,6 +456,7 @@ void HttpSecAggProtocolDelegate::Abort() {
 }
 
 size_t HttpSecAggProtocolDelegate::last_received_message_size() {
+  absl::MutexLock lock(&server_response_holder_mutex);
   if (server_response_holder_.ok()) {
     return server_response_holder_->ByteSizeLong();
   } else {
-- 
2.43.0


From 1fc8cef40e386fdcf4e99f794ef216eaa9bd23a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:21:10 +0000
Subject: [PATCH 36/44] fix: Report a secure aggregation session as failed when
 its last message was not delivered

The session ended successfully as soon as the unmasking message had been handed
over, even if the request carrying it failed or was never sent.
---
 fcp/client/secagg_runner.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fcp/client/secagg_runner.cc b/fcp/client/secagg_runner.cc
index 590a940..e8f740e 100644
--- a/fcp/client/secagg_runner.cc
+++ b/fcp/client/secagg_runner.cc
@@ -199,6 +199,15 @@ absl::Status SecAggRunnerImpl::Run(ComputationResults results) {
             return absl::CancelledError("SecAgg aborted: " + error_message);
           }
         }
+        // The client is done once it has sent its last message, but the
+        // protocol has only succeeded if that message was delivered.
+        absl::Status last_message_status =
+            this->protocol_delegate_->ReceiveServerMessage().status();
+        if (!last_message_status.ok()) {
+          return absl::Status(last_message_status.code(),
+                              absl::StrCat("Error during SecAgg receive: ",
+                                           last_message_status.message()));
+        }
         return absl::OkStatus();
       },
       [this]() {
-- 
2.43.0


From d0f3813fa3643f2a82fcea83c85859dd0c76ad87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:59:25 +0000
Subject: [PATCH 37/44] fix: Do not count a task as contributed when its
 results could not be assembled

When a computation succeeded but its results could not be turned into an upload, for example because the output checkpoint was unreadable, the failure was reported to the server. The task was still announced to the application and in the run result as contributed.
---
 fcp/client/fl_runner.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fcp/client/fl_runner.cc b/fcp/client/fl_runner.cc
index 7a33f0b..2b752dd 100644
--- a/fcp/client/fl_runner.cc
+++ b/fcp/client/fl_runner.cc
@@ -1862,6 +1862,11 @@ RunPlanResults RunComputation(
             ? nullptr
             : &checkin_result->plan.phase().tensorflow_spec(),
         plan_result_and_checkpoint_file, flags);
+    if (!computation_results.ok()) {
+      // There is nothing to contribute, so the failure is what gets reported to
+      // the server and the task must not count as contributed.
+      outcome = engine::PlanOutcome::kTensorflowError;
+    }
   }
   LogComputationOutcome(
       plan_result_and_checkpoint_file.plan_result, computation_results.status(),
-- 
2.43.0


From fbee39d745eb99d1ee5604771154e49c809f768f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:59:25 +0000
Subject: [PATCH 38/44] fix: Detect a short write of the input checkpoint

Small checkpoints stay in the stream's buffer until it is closed, and the result of closing it was ignored. With a full disk the computation then ran on an empty or truncated input checkpoint.
---
 fcp/client/fl_runner.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fcp/client/fl_runner.cc b/fcp/client/fl_runner.cc
index 2b752dd..d095963 100644
--- a/fcp/client/fl_runner.cc
+++ b/fcp/client/fl_runner.cc
@@ -848,7 +848,11 @@ absl::StatusOr<std::string> CreateInputCheckpointFile(
   if (!WriteStringOrCordToFstream(checkpoint_stream, checkpoint)) {
     return absl::InvalidArgumentError("Failed to write to file");
   }
+  // Closing the stream flushes the data which is still buffered.
   checkpoint_stream.close();
+  if (!checkpoint_stream) {
+    return absl::InvalidArgumentError("Failed to write to file");
+  }
   return filename;
 }
 
-- 
2.43.0


From 99353d9910d53fde497f5ac329fcf9eac8388136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:59:25 +0000
Subject: [PATCH 39/44] fix: Record initialization errors with the severity
 they have

Fatal initialization errors were recorded in the run history as nonfatal and the other way around.
---
 fcp/client/phase_logger_impl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fcp/client/phase_logger_impl.cc b/fcp/client/phase_logger_impl.cc
index 6f71d22..0d88878 100644
--- a/fcp/client/phase_logger_impl.cc
+++ b/fcp/client/phase_logger_impl.cc
@@ -79,7 +79,7 @@ void PhaseLoggerImpl::LogNonfatalInitializationError(
       error_status, kInitializationErrorPrefix, /* keep_error_message= */ true);
   event_publisher_->PublishNonfatalInitializationError(error_message);
   opstats_logger_->AddEventWithErrorMessage(
-      OperationalStats::Event::EVENT_KIND_INITIALIZATION_ERROR_FATAL,
+      OperationalStats::Event::EVENT_KIND_INITIALIZATION_ERROR_NONFATAL,
       error_message);
 }
 
@@ -88,7 +88,7 @@ void PhaseLoggerImpl::LogFatalInitializationError(absl::Status error_status) {
       error_status, kInitializationErrorPrefix, /* keep_error_message= */ true);
   event_publisher_->PublishFatalInitializationError(error_message);
   opstats_logger_->AddEventWithErrorMessage(
-      OperationalStats::Event::EVENT_KIND_INITIALIZATION_ERROR_NONFATAL,
+      OperationalStats::Event::EVENT_KIND_INITIALIZATION_ERROR_FATAL,
       error_message);
 }
 
-- 
2.43.0


From 4d92d9ac44aea82919105d0928ed32d52b58b6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:59:25 +0000
Subject: [PATCH 40/44] fix: Opt out of all tasks when an eligibility task
 comes without a population spec

The check-in after an eligibility task has to carry eligibility information. Without a population spec none was sent, and the protocol implementation ended the process. Send information that lists no eligible task, as the comment says.
---
 fcp/client/fl_runner.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fcp/client/fl_runner.cc b/fcp/client/fl_runner.cc
index d095963..0cc8a7f 100644
--- a/fcp/client/fl_runner.cc
+++ b/fcp/client/fl_runner.cc
@@ -961,6 +961,10 @@ absl::StatusOr<std::optional<TaskEligibilityInfo>> RunEligibilityEvalPlan(
         eligibility_eval_task.population_eligibility_spec.value(), *log_manager,
         phase_logger, opstats_logger, clock, example_iterator_factories,
         eet_plan_runner, flags);
+  } else {
+    TaskEligibilityInfo no_eligible_tasks;
+    no_eligible_tasks.set_version(1);
+    native_task_eligibility_info = no_eligible_tasks;
   }
 
   LogNativeEligibilityEvalComputationOutcome(
-- 
2.43.0


From d25fb2675f81b83d43d77e24635e5f60defd2a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:27:59 +0000
Subject: [PATCH 41/44] fix: stop a libcurl request whose callback returned an
 error

A callback that returned an error was called again, with an error and with
whatever followed in the transfer. The transfer is now aborted and the callback
is left alone.
---
 fcp/client/http/curl/curl_http_request_handle.cc | 14 +++++++++++---
 fcp/client/http/curl/curl_http_request_handle.h  |  2 ++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/fcp/client/http/curl/curl_http_request_handle.cc b/fcp/client/http/curl/curl_http_request_handle.cc
index b7af189..2260137 100644
--- a/fcp/client/http/curl/curl_http_request_handle.cc
+++ b/fcp/client/http/curl/curl_http_request_handle.cc
@@ -95,7 +95,9 @@ size_t CurlHttpRequestHandle::HeaderCallback(char* buffer, size_t size,
 
   if (!status.ok()) {
     FCP_LOG(ERROR) << "Called OnResponseStarted. Received status: " << status;
-    self->callback_->OnResponseError(*self->request_, status);
+    self->MarkAsEnded();
+    // Anything but the size of the data makes libcurl abort the transfer.
+    return 0;
   }
 
   return size * n_items;
@@ -111,8 +113,9 @@ size_t CurlHttpRequestHandle::DownloadCallback(void* body, size_t size,
 
   if (!status.ok()) {
     FCP_LOG(ERROR) << "Called OnResponseBody. Received status: " << status;
-    self->callback_->OnResponseBodyError(*self->request_, *self->response_,
-                                         status);
+    self->MarkAsEnded();
+    // Anything but the size of the data makes libcurl abort the transfer.
+    return 0;
   }
 
   return size * nmemb;
@@ -188,6 +191,11 @@ void CurlHttpRequestHandle::Cancel() {
   is_cancelled_ = true;
 }
 
+void CurlHttpRequestHandle::MarkAsEnded() {
+  absl::MutexLock lock(&mutex_);
+  is_completed_ = true;
+}
+
 void CurlHttpRequestHandle::MarkAsCompleted() {
   absl::MutexLock lock(&mutex_);
 
diff --git a/fcp/client/http/curl/curl_http_request_handle.h b/fcp/client/http/curl/curl_http_request_handle.h
index 3b0147c..779a430 100644
--- a/fcp/client/http/curl/curl_http_request_handle.h
+++ b/fcp/client/http/curl/curl_http_request_handle.h
@@ -64,6 +64,8 @@ class CurlHttpRequestHandle : public HttpRequestHandle {
   void Cancel() override ABSL_LOCKS_EXCLUDED(mutex_);
 
  private:
+  // Ends the request without calling any further callback methods.
+  void MarkAsEnded() ABSL_LOCKS_EXCLUDED(mutex_);
   // Initializes the easy_handle_ in the constructor.
   CURLcode InitializeConnection(const std::string& test_cert_path)
       ABSL_EXCLUSIVE_LOCKS_REQUIRED(mutex_);
-- 
2.43.0


From 28f83b160379b58086117c05dd7ccbd574e9955e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:27:59 +0000
Subject: [PATCH 42/44] fix: report a libcurl transfer that failed after its
 headers as failed

It was reported as completed, so a truncated body looked like a whole one.
---
 fcp/client/http/curl/curl_http_client.cc         | 2 +-
 fcp/client/http/curl/curl_http_request_handle.cc | 8 ++++++--
 fcp/client/http/curl/curl_http_request_handle.h  | 5 +++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/fcp/client/http/curl/curl_http_client.cc b/fcp/client/http/curl/curl_http_client.cc
index c5f75e7..aa86abf 100644
--- a/fcp/client/http/curl/curl_http_client.cc
+++ b/fcp/client/http/curl/curl_http_client.cc
@@ -45,7 +45,7 @@ void ReadCompleteMessages(CurlMultiHandle* multi_handle) {
       FCP_CHECK(user_data != nullptr);
 
       auto handle = static_cast<CurlHttpRequestHandle*>(user_data);
-      handle->MarkAsCompleted();
+      handle->MarkAsCompleted(msg->data.result);
       handle->RemoveFromMulti(multi_handle);
     }
   }
diff --git a/fcp/client/http/curl/curl_http_request_handle.cc b/fcp/client/http/curl/curl_http_request_handle.cc
index 2260137..99d5179 100644
--- a/fcp/client/http/curl/curl_http_request_handle.cc
+++ b/fcp/client/http/curl/curl_http_request_handle.cc
@@ -196,13 +196,17 @@ void CurlHttpRequestHandle::MarkAsEnded() {
   is_completed_ = true;
 }
 
-void CurlHttpRequestHandle::MarkAsCompleted() {
+void CurlHttpRequestHandle::MarkAsCompleted(CURLcode result) {
   absl::MutexLock lock(&mutex_);
 
   FCP_CHECK(callback_ != nullptr);
   if (!is_cancelled_ && !is_completed_) {
-    if (response_ != nullptr) {
+    if (response_ != nullptr && result == CURLE_OK) {
       callback_->OnResponseCompleted(*request_, *response_);
+    } else if (response_ != nullptr) {
+      callback_->OnResponseBodyError(
+          *request_, *response_,
+          absl::InternalError(CurlEasyHandle::StrError(result)));
     } else {
       callback_->OnResponseError(*request_,
                                  absl::InternalError("response_ is nullptr"));
diff --git a/fcp/client/http/curl/curl_http_request_handle.h b/fcp/client/http/curl/curl_http_request_handle.h
index 779a430..7d62607 100644
--- a/fcp/client/http/curl/curl_http_request_handle.h
+++ b/fcp/client/http/curl/curl_http_request_handle.h
@@ -55,8 +55,9 @@ class CurlHttpRequestHandle : public HttpRequestHandle {
   // Removes this request from the corresponding multi-handle.
   void RemoveFromMulti(CurlMultiHandle* multi_handle)
       ABSL_LOCKS_EXCLUDED(mutex_);
-  // Marks the request as completed which fires the OnComplete callback.
-  void MarkAsCompleted() ABSL_LOCKS_EXCLUDED(mutex_);
+  // Marks the request as completed which fires the OnComplete callback, or one
+  // of the error callbacks if the transfer ended with an error.
+  void MarkAsCompleted(CURLcode result) ABSL_LOCKS_EXCLUDED(mutex_);
 
   // HttpRequestHandle overrides:
   ABSL_MUST_USE_RESULT HttpRequestHandle::SentReceivedBytes
-- 
2.43.0


From 57c210375a860331d7c1c347f52a2ffd83f3fedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:27:59 +0000
Subject: [PATCH 43/44] fix: pass on the error of a request body that could not
 be read over libcurl

It was replaced by an internal error that said nothing of the cause.
---
 fcp/client/http/curl/curl_http_request_handle.cc | 4 ++++
 fcp/client/http/curl/curl_http_request_handle.h  | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/fcp/client/http/curl/curl_http_request_handle.cc b/fcp/client/http/curl/curl_http_request_handle.cc
index 99d5179..a256bc9 100644
--- a/fcp/client/http/curl/curl_http_request_handle.cc
+++ b/fcp/client/http/curl/curl_http_request_handle.cc
@@ -133,6 +133,8 @@ size_t CurlHttpRequestHandle::UploadCallback(char* buffer, size_t size,
   } else if (read_size.status().code() == absl::StatusCode::kOutOfRange) {
     return 0;
   }
+  absl::MutexLock lock(&self->mutex_);
+  self->read_body_status_ = read_size.status();
   return CURL_READFUNC_ABORT;
 }
 
@@ -207,6 +209,8 @@ void CurlHttpRequestHandle::MarkAsCompleted(CURLcode result) {
       callback_->OnResponseBodyError(
           *request_, *response_,
           absl::InternalError(CurlEasyHandle::StrError(result)));
+    } else if (!read_body_status_.ok()) {
+      callback_->OnResponseError(*request_, read_body_status_);
     } else {
       callback_->OnResponseError(*request_,
                                  absl::InternalError("response_ is nullptr"));
diff --git a/fcp/client/http/curl/curl_http_request_handle.h b/fcp/client/http/curl/curl_http_request_handle.h
index 7d62607..fb1e2b6 100644
--- a/fcp/client/http/curl/curl_http_request_handle.h
+++ b/fcp/client/http/curl/curl_http_request_handle.h
@@ -101,6 +101,8 @@ class CurlHttpRequestHandle : public HttpRequestHandle {
   bool is_being_performed_ ABSL_GUARDED_BY(mutex_);
   bool is_completed_ ABSL_GUARDED_BY(mutex_);
   bool is_cancelled_ ABSL_GUARDED_BY(mutex_);
+  // The error that `HttpRequest::ReadBody` ended the request with, if any.
+  absl::Status read_body_status_ ABSL_GUARDED_BY(mutex_);
   char error_buffer_[CURL_ERROR_SIZE] ABSL_GUARDED_BY(mutex_){};
   // Owned by the class.
   curl_slist* header_list_;
-- 
2.43.0


From 800b705e8075d8cc87ef6db17809760f98929cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:27:59 +0000
Subject: [PATCH 44/44] fix: do not crash on a libcurl request that cannot be
 set up

The constructor reported the error to a callback that is not known yet. The
error is now reported when the request is performed.
---
 fcp/client/http/curl/curl_http_request_handle.cc | 10 ++++++++--
 fcp/client/http/curl/curl_http_request_handle.h  |  2 ++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/fcp/client/http/curl/curl_http_request_handle.cc b/fcp/client/http/curl/curl_http_request_handle.cc
index a256bc9..ed9f49b 100644
--- a/fcp/client/http/curl/curl_http_request_handle.cc
+++ b/fcp/client/http/curl/curl_http_request_handle.cc
@@ -169,8 +169,8 @@ CurlHttpRequestHandle::CurlHttpRequestHandle(
     FCP_LOG(ERROR) << "easy_handle initialization failed with code "
                    << CurlEasyHandle::StrError(code);
     FCP_LOG(ERROR) << error_buffer_;
-    callback_->OnResponseError(*request_, absl::InternalError(error_buffer_));
-    return;
+    // There is no callback yet, AddToMulti reports the error.
+    init_status_ = absl::InternalError(CurlEasyHandle::StrError(code));
   }
 }
 
@@ -234,6 +234,12 @@ absl::Status CurlHttpRequestHandle::AddToMulti(CurlMultiHandle* multi_handle,
         "The handle was previously passed to another PerformRequests call.");
   }
 
+  if (!init_status_.ok()) {
+    is_completed_ = true;
+    callback->OnResponseError(*request_, init_status_);
+    return init_status_;
+  }
+
   is_being_performed_ = true;
   callback_ = callback;
 
diff --git a/fcp/client/http/curl/curl_http_request_handle.h b/fcp/client/http/curl/curl_http_request_handle.h
index fb1e2b6..fc155bc 100644
--- a/fcp/client/http/curl/curl_http_request_handle.h
+++ b/fcp/client/http/curl/curl_http_request_handle.h
@@ -98,6 +98,8 @@ class CurlHttpRequestHandle : public HttpRequestHandle {
   CurlHeaderParser header_parser_{};
   // Owned by the caller. Initialized in AddToMulti and then read-only.
   HttpRequestCallback* callback_ ABSL_GUARDED_BY(mutex_);
+  // Whether the connection could be set up by the constructor.
+  absl::Status init_status_ ABSL_GUARDED_BY(mutex_);
   bool is_being_performed_ ABSL_GUARDED_BY(mutex_);
   bool is_completed_ ABSL_GUARDED_BY(mutex_);
   bool is_cancelled_ ABSL_GUARDED_BY(mutex_);
-- 
2.43.0

