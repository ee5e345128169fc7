From b0efcad66a3aa3633f151491cba89b40c2498f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 01/68] fix: call init() on the handler also if the input
 contains no objects

---
 include/osmium/input.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/osmium/input.hpp b/include/osmium/input.hpp
index d444918..66ba5c0 100644
--- a/include/osmium/input.hpp
+++ b/include/osmium/input.hpp
@@ -92,6 +92,7 @@ namespace Osmium {
 
             Base(const Osmium::OSMFile& file,
                  THandler& handler) :
+                m_init_called(false),
                 m_last_object_type(UNKNOWN),
                 m_file(file),
                 m_handler(handler),
@@ -106,11 +107,12 @@ namespace Osmium {
             }
 
             void call_after_and_before_on_handler(osm_object_type_t current_object_type) {
+                if (!m_init_called) {
+                    m_init_called = true;
+                    m_handler.init(m_meta);
+                }
                 if (current_object_type != m_last_object_type) {
                     switch (m_last_object_type) {
-                        case UNKNOWN:
-                            m_handler.init(m_meta);
-                            break;
                         case NODE:
                             m_handler.after_nodes();
                             break;
@@ -209,6 +211,11 @@ namespace Osmium {
 
         private:
 
+            /**
+             * Has init() already been called on the handler?
+             */
+            bool m_init_called;
+
             /**
              * The last object type we read (before the current one).
              * Used to properly call before and after methods.
-- 
2.43.0


From a9eff9b767978f4a99396f7881eee7f73a6e1aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 02/68] fix: handle date granularities in PBF files that are
 not a multiple of 1000

---
 include/osmium/input/pbf.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/osmium/input/pbf.hpp b/include/osmium/input/pbf.hpp
index d987e6c..365e2b6 100644
--- a/include/osmium/input/pbf.hpp
+++ b/include/osmium/input/pbf.hpp
@@ -58,7 +58,7 @@ namespace Osmium {
             OSMPBF::BlobHeader     m_pbf_blob_header;
             OSMPBF::PrimitiveBlock m_pbf_primitive_block;
 
-            int64_t m_date_factor;
+            int64_t m_date_granularity;
 
         public:
 
@@ -75,7 +75,7 @@ namespace Osmium {
                 m_pbf_blob(),
                 m_pbf_blob_header(),
                 m_pbf_primitive_block(),
-                m_date_factor() {
+                m_date_granularity() {
                 GOOGLE_PROTOBUF_VERIFY_VERSION;
             }
 
@@ -95,7 +95,7 @@ namespace Osmium {
                                 throw std::runtime_error("Failed to parse PrimitiveBlock.");
                             }
                             const OSMPBF::StringTable& stringtable = m_pbf_primitive_block.stringtable();
-                            m_date_factor = m_pbf_primitive_block.date_granularity() / 1000;
+                            m_date_granularity = m_pbf_primitive_block.date_granularity();
                             for (int i=0; i < m_pbf_primitive_block.primitivegroup_size(); ++i) {
                                 parse_group(m_pbf_primitive_block.primitivegroup(i), stringtable);
                             }
@@ -195,7 +195,7 @@ namespace Osmium {
                     if (pbf_node.has_info()) {
                         node.version(pbf_node.info().version())
                         .changeset(pbf_node.info().changeset())
-                        .timestamp(pbf_node.info().timestamp() * m_date_factor)
+                        .timestamp(pbf_node.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_node.info().uid())
                         .user(stringtable.s(pbf_node.info().user_sid()).data());
                         if (pbf_node.info().has_visible()) {
@@ -233,7 +233,7 @@ namespace Osmium {
                     if (pbf_way.has_info()) {
                         way.version(pbf_way.info().version())
                         .changeset(pbf_way.info().changeset())
-                        .timestamp(pbf_way.info().timestamp() * m_date_factor)
+                        .timestamp(pbf_way.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_way.info().uid())
                         .user(stringtable.s(pbf_way.info().user_sid()).data());
                         if (pbf_way.info().has_visible()) {
@@ -274,7 +274,7 @@ namespace Osmium {
                     if (pbf_relation.has_info()) {
                         relation.version(pbf_relation.info().version())
                         .changeset(pbf_relation.info().changeset())
-                        .timestamp(pbf_relation.info().timestamp() * m_date_factor)
+                        .timestamp(pbf_relation.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_relation.info().uid())
                         .user(stringtable.s(pbf_relation.info().user_sid()).data());
                         if (pbf_relation.info().has_visible()) {
@@ -342,7 +342,7 @@ namespace Osmium {
 
                         node.version(dense.denseinfo().version(entity));
                         node.changeset(last_dense_changeset);
-                        node.timestamp(last_dense_timestamp * m_date_factor);
+                        node.timestamp(last_dense_timestamp * m_date_granularity / 1000);
                         node.uid(last_dense_uid);
                         node.user(stringtable.s(last_dense_user_sid).data());
 
-- 
2.43.0


From 8f33868824e3f139a9e2ab823bc48d5bf1a05aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 03/68] fix: allow more than 65535 different strings in a PBF
 block

---
 include/osmium/output/pbf.hpp        | 4 ++--
 include/osmium/utils/stringtable.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/osmium/output/pbf.hpp b/include/osmium/output/pbf.hpp
index 9162f24..d7178db 100644
--- a/include/osmium/output/pbf.hpp
+++ b/include/osmium/output/pbf.hpp
@@ -382,7 +382,7 @@ namespace Osmium {
                         // is always unused). String-ids of 0 are thus kept alone.
                         for (int i=0, l=dense->keys_vals_size(); i<l; i++) {
                             // map interim string-ids > 0 to real string ids
-                            uint16_t sid = dense->keys_vals(i);
+                            uint32_t sid = dense->keys_vals(i);
                             if (sid > 0) {
                                 dense->set_keys_vals(i, string_table.map_string_id(sid));
                             }
@@ -396,7 +396,7 @@ namespace Osmium {
                             // iterate over all username string-ids
                             for (int i=0, l= denseinfo->user_sid_size(); i<l; i++) {
                                 // map interim string-ids > 0 to real string ids
-                                uint16_t user_sid = string_table.map_string_id(denseinfo->user_sid(i));
+                                uint32_t user_sid = string_table.map_string_id(denseinfo->user_sid(i));
 
                                 // delta encode the string-id
                                 denseinfo->set_user_sid(i, m_delta_user_sid.update(user_sid));
diff --git a/include/osmium/utils/stringtable.hpp b/include/osmium/utils/stringtable.hpp
index 69063bd..3df5678 100644
--- a/include/osmium/utils/stringtable.hpp
+++ b/include/osmium/utils/stringtable.hpp
@@ -54,7 +54,7 @@ namespace Osmium {
     class StringTable {
 
         /// type for string IDs (interim and final)
-        typedef uint16_t string_id_t;
+        typedef uint32_t string_id_t;
 
         /**
          * this is the struct used to build the StringTable. It is stored as
@@ -74,7 +74,7 @@ namespace Osmium {
          */
         struct string_info {
             /// number of occurrences of this string
-            uint16_t count;
+            uint32_t count;
 
             /// an intermediate-id
             string_id_t interim_id;
-- 
2.43.0


From 129e113d225f9c0d22607b8ab66d87efeab7e184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 04/68] fix: round instead of truncate the bounding box in PBF
 headers

---
 include/osmium/output/pbf.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/osmium/output/pbf.hpp b/include/osmium/output/pbf.hpp
index d7178db..a8238d4 100644
--- a/include/osmium/output/pbf.hpp
+++ b/include/osmium/output/pbf.hpp
@@ -886,10 +886,10 @@ namespace Osmium {
 
                 if (meta.bounds().defined()) {
                     OSMPBF::HeaderBBox* bbox = pbf_header_block.mutable_bbox();
-                    bbox->set_left(meta.bounds().bottom_left().lon() * OSMPBF::lonlat_resolution);
-                    bbox->set_bottom(meta.bounds().bottom_left().lat() * OSMPBF::lonlat_resolution);
-                    bbox->set_right(meta.bounds().top_right().lon() * OSMPBF::lonlat_resolution);
-                    bbox->set_top(meta.bounds().top_right().lat() * OSMPBF::lonlat_resolution);
+                    bbox->set_left(round(meta.bounds().bottom_left().lon() * OSMPBF::lonlat_resolution));
+                    bbox->set_bottom(round(meta.bounds().bottom_left().lat() * OSMPBF::lonlat_resolution));
+                    bbox->set_right(round(meta.bounds().top_right().lon() * OSMPBF::lonlat_resolution));
+                    bbox->set_top(round(meta.bounds().top_right().lat() * OSMPBF::lonlat_resolution));
                 }
 
                 store_header_block();
-- 
2.43.0


From 58681f070d331113c0335437668e0a167b111296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 05/68] fix: keep PBF blocks below the maximum blob size for
 all kinds of objects

---
 include/osmium/output/pbf.hpp | 56 +++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 12 deletions(-)

diff --git a/include/osmium/output/pbf.hpp b/include/osmium/output/pbf.hpp
index a8238d4..3f292e8 100644
--- a/include/osmium/output/pbf.hpp
+++ b/include/osmium/output/pbf.hpp
@@ -88,6 +88,7 @@ More complete outlines of real .osm.pbf files can be created using the osmpbf-ou
 
 #include <algorithm>
 #include <cmath>
+#include <cstring>
 #include <osmpbf/osmpbf.h>
 #include <zlib.h>
 
@@ -303,6 +304,11 @@ namespace Osmium {
                 // serialize the protobuf message to the string
                 msg.SerializeToString(&data);
 
+                // readers are not allowed to accept anything larger
+                if (data.size() > static_cast<size_t>(OSMPBF::max_uncompressed_blob_size)) {
+                    throw std::runtime_error("object too large for PBF blob");
+                }
+
                 if (use_compression()) {
                     // compress using zlib
                     size_t out = zlib_compress(data);
@@ -572,12 +578,15 @@ namespace Osmium {
              * for increasing this counter.
              *
              * this function also checks the estimated size of the current block and calls store_primitive_block
-             * when the estimated size reaches buffer_fill_percent of the maximum uncompressed blob size.
+             * when the estimated size including the next object would exceed buffer_fill_percent of the maximum
+             * uncompressed blob size.
+             *
+             * @param object_size Upper limit for the size of the object about to be added to the block.
              */
-            void check_block_contents_counter() {
+            void check_block_contents_counter(uint32_t object_size) {
                 if (primitive_block_contents >= max_block_contents) {
                     store_primitive_block();
-                } else if (primitive_block_size > (static_cast<uint32_t>(OSMPBF::max_uncompressed_blob_size) * buffer_fill_percent / 100)) {
+                } else if (primitive_block_contents > 0 && primitive_block_size + object_size > (static_cast<uint32_t>(OSMPBF::max_uncompressed_blob_size) * buffer_fill_percent / 100)) {
                     if (debug && has_debug_level(1)) {
                         std::cerr << "storing primitive_block with only " << primitive_block_contents << " items, because its ByteSize (" << primitive_block_size << ") reached " <<
                                   (static_cast<float>(primitive_block_size) / static_cast<float>(OSMPBF::max_uncompressed_blob_size) * 100.0) << "% of the maximum blob-size" << std::endl;
@@ -587,6 +596,35 @@ namespace Osmium {
                 }
 
                 primitive_block_contents++;
+                primitive_block_size += object_size;
+            }
+
+            /**
+             * Upper limit for the number of bytes needed in a block for an object without nodes or members,
+             * including the entries it might need in the string table.
+             */
+            static uint32_t max_size(const Osmium::OSM::Object& object) {
+                uint32_t size = 128 + strlen(object.user());
+                Osmium::OSM::TagList::const_iterator end = object.tags().end();
+                for (Osmium::OSM::TagList::const_iterator it = object.tags().begin(); it != end; ++it) {
+                    size += 24 + strlen(it->key()) + strlen(it->value());
+                }
+                return size;
+            }
+
+            /// Upper limit for the number of bytes needed in a block for a way.
+            static uint32_t max_size(const Osmium::OSM::Way& way) {
+                return max_size(static_cast<const Osmium::OSM::Object&>(way)) + 10 * way.nodes().size();
+            }
+
+            /// Upper limit for the number of bytes needed in a block for a relation.
+            static uint32_t max_size(const Osmium::OSM::Relation& relation) {
+                uint32_t size = max_size(static_cast<const Osmium::OSM::Object&>(relation));
+                Osmium::OSM::RelationMemberList::const_iterator end = relation.members().end();
+                for (Osmium::OSM::RelationMemberList::const_iterator it = relation.members().begin(); it != end; ++it) {
+                    size += 24 + strlen(it->role());
+                }
+                return size;
             }
 
 
@@ -686,9 +724,6 @@ namespace Osmium {
                     // copy the way-node-id, delta encoded
                     pbf_way->add_refs(delta_id.update(way->get_node_id(i)));
                 }
-
-                // count up blob size by the size of the Way
-                primitive_block_size += pbf_way->ByteSize();
             }
 
             /**
@@ -732,9 +767,6 @@ namespace Osmium {
                             throw std::runtime_error("Unknown relation member type");
                     }
                 }
-
-                // count up blob size by the size of the Relation
-                primitive_block_size += pbf_relation->ByteSize();
             }
 
             // objects of this class can't be copied
@@ -905,7 +937,7 @@ namespace Osmium {
             void node(const shared_ptr<Osmium::OSM::Node const>& node) {
                 // first of we check the contents-counter which may flush the cached nodes to
                 // disk if the limit is reached. This call also increases the contents-counter
-                check_block_contents_counter();
+                check_block_contents_counter(max_size(*node));
 
                 if (debug && has_debug_level(2)) {
                     std::cerr << "node " << node->id() << " v" << node->version() << std::endl;
@@ -933,7 +965,7 @@ namespace Osmium {
             void way(const shared_ptr<Osmium::OSM::Way const>& way) {
                 // first of we check the contents-counter which may flush the cached ways to
                 // disk if the limit is reached. This call also increases the contents-counter
-                check_block_contents_counter();
+                check_block_contents_counter(max_size(*way));
 
                 if (debug && has_debug_level(2)) {
                     std::cerr << "way " << way->id() << " v" << way->version() << " with " << way->nodes().size() << " nodes" << std::endl;
@@ -957,7 +989,7 @@ namespace Osmium {
             void relation(const shared_ptr<Osmium::OSM::Relation const>& relation) {
                 // first of we check the contents-counter which may flush the cached relations to
                 // disk if the limit is reached. This call also increases the contents-counter
-                check_block_contents_counter();
+                check_block_contents_counter(max_size(*relation));
 
                 if (debug && has_debug_level(2)) {
                     std::cerr << "relation " << relation->id() << " v" << relation->version() << " with " << relation->members().size() << " members" << std::endl;
-- 
2.43.0


From 137e9db68a14162b334ce9c336e8956e0df015e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:34 +0000
Subject: [PATCH 06/68] fix: do not leak pipes into the helper processes of
 other files

With more than 32 open file descriptors a helper process kept the pipe of
another file open, so that the other helper process never saw the end of its
input and closing the file waited for it forever.
---
 include/osmium/osmfile.hpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index 316ff14..7963669 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -313,12 +313,24 @@ namespace Osmium {
          */
         int execute(const std::string& command, int input) {
             int pipefd[2];
+            // other children must not inherit the ends of this pipe
+#ifdef O_CLOEXEC
+            if (pipe2(pipefd, O_CLOEXEC) < 0) {
+                throw SystemError("Can't create pipe", errno);
+            }
+#else
             if (pipe(pipefd) < 0) {
                 throw SystemError("Can't create pipe", errno);
             }
+            fcntl(pipefd[0], F_SETFD, FD_CLOEXEC);
+            fcntl(pipefd[1], F_SETFD, FD_CLOEXEC);
+#endif
             pid_t pid = fork();
             if (pid < 0) {
-                throw SystemError("Can't fork", errno);
+                int e = errno;
+                ::close(pipefd[0]);
+                ::close(pipefd[1]);
+                throw SystemError("Can't fork", e);
             }
             if (pid == 0) { // child
                 // close all file descriptors except one end of the pipe
@@ -327,8 +339,15 @@ namespace Osmium {
                         ::close(i);
                     }
                 }
-                if (dup2(pipefd[1-input], 1-input) < 0) { // put end of pipe as stdout/stdin
-                    exit(1);
+                if (pipefd[1-input] == 1-input) { // end of pipe already is stdout/stdin
+                    if (fcntl(1-input, F_SETFD, 0) < 0) {
+                        exit(1);
+                    }
+                } else {
+                    if (dup2(pipefd[1-input], 1-input) < 0) { // put end of pipe as stdout/stdin
+                        exit(1);
+                    }
+                    ::close(pipefd[1-input]);
                 }
 
                 if (input == 0) {
-- 
2.43.0


From 6800a030814c0112067a861f5ed73faa6c45c9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:34 +0000
Subject: [PATCH 07/68] fix: do not run the parent's exit handlers in the child
 process if exec fails

exit() also flushed a copy of the parent's unwritten stdio buffers, into the
pipe the parent reads its data from.
---
 include/osmium/osmfile.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index 7963669..82666c2 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -341,11 +341,11 @@ namespace Osmium {
                 }
                 if (pipefd[1-input] == 1-input) { // end of pipe already is stdout/stdin
                     if (fcntl(1-input, F_SETFD, 0) < 0) {
-                        exit(1);
+                        _exit(1);
                     }
                 } else {
                     if (dup2(pipefd[1-input], 1-input) < 0) { // put end of pipe as stdout/stdin
-                        exit(1);
+                        _exit(1);
                     }
                     ::close(pipefd[1-input]);
                 }
@@ -354,15 +354,15 @@ namespace Osmium {
                     ::open("/dev/null", O_RDONLY); // stdin
                     ::open("/dev/null", O_WRONLY); // stderr
                     if (::execlp(command.c_str(), command.c_str(), m_filename.c_str(), NULL) < 0) {
-                        exit(1);
+                        _exit(1);
                     }
                 } else {
                     if (::open(m_filename.c_str(), O_WRONLY | O_TRUNC | O_CREAT, 0666) != 1) {
-                        exit(1);
+                        _exit(1);
                     }
                     ::open("/dev/null", O_WRONLY); // stderr
                     if (::execlp(command.c_str(), command.c_str(), 0, NULL) < 0) {
-                        exit(1);
+                        _exit(1);
                     }
                 }
             }
-- 
2.43.0


From 92d54988f728af8f3e177b0ca43e6fd0b2464d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:34 +0000
Subject: [PATCH 08/68] fix: report errors from closing a file and wait only
 once for its helper process

---
 include/osmium/osmfile.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index 82666c2..909f922 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -553,20 +553,30 @@ namespace Osmium {
         }
 
         void close() {
+            int close_errno = 0;
             if (m_fd >= 0) {
-                ::close(m_fd);
+                if (::close(m_fd) != 0) {
+                    close_errno = errno;
+                }
                 m_fd = -1;
             }
 
             if (m_childpid) {
                 int status;
-                pid_t pid = waitpid(m_childpid, &status, 0);
+                pid_t pid;
+                do {
+                    pid = waitpid(m_childpid, &status, 0);
+                } while (pid < 0 && errno == EINTR);
+                m_childpid = 0;
                 if (pid < 0 || !WIFEXITED(status) || WEXITSTATUS(status) != 0) {
                     // global variable errno doesn't contain a valid value,
                     // so we better set errno=0
                     throw IOError("Subprocess returned error", m_filename, 0);
                 }
-                m_childpid = 0;
+            }
+
+            if (close_errno) {
+                throw IOError("Close failed", m_filename, close_errno);
             }
         }
 
-- 
2.43.0


From 06101311284b4879167ce36f6d3d1d71b81ef057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:34 +0000
Subject: [PATCH 09/68] fix: close the open file when assigning to an OSMFile

---
 include/osmium/osmfile.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index 909f922..3b5ec45 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -536,8 +536,14 @@ namespace Osmium {
          * copied.
          */
         OSMFile& operator=(const OSMFile& orig) {
-            m_fd       = -1;
-            m_childpid = 0;
+            if (this == &orig) {
+                return *this;
+            }
+            try {
+                close();
+            } catch (...) {
+                // ignore exceptions
+            }
             m_type     = orig.type();
             m_encoding = orig.encoding();
             m_filename = orig.filename();
-- 
2.43.0


From e0d0f47d972c949009c7bef0f025febea51bb2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 10/68] fix: reading compressed files with names starting with
 a dash

---
 include/osmium/osmfile.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index 3b5ec45..c27856d 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -312,6 +312,8 @@ namespace Osmium {
          * @throws SystemError if a system call fails.
          */
         int execute(const std::string& command, int input) {
+            // make sure the command does not take the filename for an option
+            const std::string filename(m_filename[0] == '-' ? "./" + m_filename : m_filename);
             int pipefd[2];
             // other children must not inherit the ends of this pipe
 #ifdef O_CLOEXEC
@@ -353,7 +355,7 @@ namespace Osmium {
                 if (input == 0) {
                     ::open("/dev/null", O_RDONLY); // stdin
                     ::open("/dev/null", O_WRONLY); // stderr
-                    if (::execlp(command.c_str(), command.c_str(), m_filename.c_str(), NULL) < 0) {
+                    if (::execlp(command.c_str(), command.c_str(), filename.c_str(), NULL) < 0) {
                         _exit(1);
                     }
                 } else {
-- 
2.43.0


From d3cc5d3a30b383d8191b4b898ad042e6fb50e833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 11/68] fix: reading compressed data from stdin and writing it
 to stdout

---
 include/osmium/osmfile.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index c27856d..cfb0b24 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -336,8 +336,9 @@ namespace Osmium {
             }
             if (pid == 0) { // child
                 // close all file descriptors except one end of the pipe
+                // (and stdin/stdout if that's where the data comes from/goes to)
                 for (int i=0; i < 32; ++i) {
-                    if (i != pipefd[1-input]) {
+                    if (i != pipefd[1-input] && !(filename.empty() && i == input)) {
                         ::close(i);
                     }
                 }
@@ -353,13 +354,16 @@ namespace Osmium {
                 }
 
                 if (input == 0) {
-                    ::open("/dev/null", O_RDONLY); // stdin
+                    if (!filename.empty()) {
+                        ::open("/dev/null", O_RDONLY); // stdin
+                    }
                     ::open("/dev/null", O_WRONLY); // stderr
-                    if (::execlp(command.c_str(), command.c_str(), filename.c_str(), NULL) < 0) {
+                    // without filename the command reads from stdin
+                    if (::execlp(command.c_str(), command.c_str(), filename.empty() ? static_cast<const char*>(NULL) : filename.c_str(), static_cast<const char*>(NULL)) < 0) {
                         _exit(1);
                     }
                 } else {
-                    if (::open(m_filename.c_str(), O_WRONLY | O_TRUNC | O_CREAT, 0666) != 1) {
+                    if (!filename.empty() && ::open(filename.c_str(), O_WRONLY | O_TRUNC | O_CREAT, 0666) != 1) {
                         _exit(1);
                     }
                     ::open("/dev/null", O_WRONLY); // stderr
-- 
2.43.0


From dc0aea31431e5c84af7de8ebb7b9e1c9ea7e9736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 12/68] fix: do not abort on unexpectedly nested elements in
 XML files

---
 include/osmium/input/xml.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/osmium/input/xml.hpp b/include/osmium/input/xml.hpp
index 985acd7..598e6de 100644
--- a/include/osmium/input/xml.hpp
+++ b/include/osmium/input/xml.hpp
@@ -63,6 +63,7 @@ namespace Osmium {
                 m_current_object(NULL),
                 m_context(context_root),
                 m_last_context(context_root),
+                m_ignored_elements(0),
                 m_in_delete_section(false) {
             }
 
@@ -128,6 +129,12 @@ namespace Osmium {
             context_t m_context;
             context_t m_last_context;
 
+            /**
+             * Nesting level of elements we ignore inside of tag, nd, and
+             * member elements.
+             */
+            int m_ignored_elements;
+
             /**
              * This is used only for change files which contain create, modify,
              * and delete sections.
@@ -269,7 +276,9 @@ namespace Osmium {
                         }
                         break;
                     case context_in_object:
-                        // fallthrough
+                        // ignore elements inside of tag, nd, or member elements
+                        ++m_ignored_elements;
+                        break;
                     default:
                         assert(false); // should never be here
                 }
@@ -278,7 +287,7 @@ namespace Osmium {
             void end_element(const XML_Char* element) {
                 switch (m_context) {
                     case context_root:
-                        assert(false); // should never be here
+                        // end of an element around the osm or osmChange element
                         break;
                     case context_top:
                         if (!strcmp(element, "osm") || !strcmp(element, "osmChange")) {
@@ -303,7 +312,11 @@ namespace Osmium {
                         m_context = context_top;
                         break;
                     case context_in_object:
-                        m_context = m_last_context;
+                        if (m_ignored_elements > 0) {
+                            --m_ignored_elements;
+                        } else {
+                            m_context = m_last_context;
+                        }
                         break;
                     default:
                         assert(false); // should never be here
-- 
2.43.0


From 5b1510030079539c8f766e30b00562bc90e51382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 13/68] fix: lat and lon attributes of ways and relations must
 not change the last node

---
 include/osmium/input/xml.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/osmium/input/xml.hpp b/include/osmium/input/xml.hpp
index 598e6de..af895b6 100644
--- a/include/osmium/input/xml.hpp
+++ b/include/osmium/input/xml.hpp
@@ -156,11 +156,11 @@ namespace Osmium {
                 m_current_object = &obj;
                 for (int count = 0; attrs[count]; count += 2) {
                     if (!strcmp(attrs[count], "lon")) {
-                        if (this->m_node) {
+                        if (m_current_object == this->m_node.get()) {
                             this->m_node->lon(atof(attrs[count+1]));
                         }
                     } else if (!strcmp(attrs[count], "lat")) {
-                        if (this->m_node) {
+                        if (m_current_object == this->m_node.get()) {
                             this->m_node->lat(atof(attrs[count+1]));
                         }
                     } else {
-- 
2.43.0


From ef0094bc0ec6b37ad9e6631e0f11507390b822b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 14/68] fix: free the XML parser when reading ends with an
 exception

---
 include/osmium/input/xml.hpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/osmium/input/xml.hpp b/include/osmium/input/xml.hpp
index af895b6..4c001e6 100644
--- a/include/osmium/input/xml.hpp
+++ b/include/osmium/input/xml.hpp
@@ -68,10 +68,8 @@ namespace Osmium {
             }
 
             void parse() {
-                XML_Parser parser = XML_ParserCreate(0);
-                if (!parser) {
-                    throw std::runtime_error("Error creating parser");
-                }
+                const ParserHolder parser_holder;
+                const XML_Parser parser = parser_holder.parser;
 
                 XML_SetUserData(parser, this);
 
@@ -102,7 +100,6 @@ namespace Osmium {
                             throw std::runtime_error(errorDesc.str());
                         }
                     } while (!done);
-                    XML_ParserFree(parser);
 
                     this->call_after_and_before_on_handler(UNKNOWN);
                 } catch (Osmium::Handler::StopReading) {
@@ -113,6 +110,26 @@ namespace Osmium {
 
         private:
 
+            /**
+             * Makes sure the parser is freed however parse() is left.
+             */
+            struct ParserHolder : boost::noncopyable {
+
+                const XML_Parser parser;
+
+                ParserHolder() :
+                    parser(XML_ParserCreate(0)) {
+                    if (!parser) {
+                        throw std::runtime_error("Error creating parser");
+                    }
+                }
+
+                ~ParserHolder() {
+                    XML_ParserFree(parser);
+                }
+
+            };
+
             static const int c_buffer_size = 10240;
 
             Osmium::OSM::Object* m_current_object;
-- 
2.43.0


From 21801a1e5e46901c13ca38b11110c3c59e0f88ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 15/68] fix: release the input file when reading ends with an
 exception

---
 include/osmium.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/osmium.hpp b/include/osmium.hpp
index 74817e3..1b6ae21 100644
--- a/include/osmium.hpp
+++ b/include/osmium.hpp
@@ -22,6 +22,8 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 
 */
 
+#include <boost/scoped_ptr.hpp>
+
 #ifdef OSMIUM_WITH_PBF_INPUT
 # include <osmium/input/pbf.hpp>
 #endif
@@ -54,24 +56,23 @@ namespace Osmium {
 
         template <class T>
         inline void read(const Osmium::OSMFile& file, T& handler) {
-            Osmium::Input::Base<T>* input = NULL;
+            boost::scoped_ptr<Osmium::Input::Base<T> > input;
 
             if (file.encoding()->is_pbf()) {
 #ifdef OSMIUM_WITH_PBF_INPUT
-                input = static_cast<Osmium::Input::Base<T>*>(new Osmium::Input::PBF<T>(file, handler));
+                input.reset(new Osmium::Input::PBF<T>(file, handler));
 #else
                 throw Osmium::OSMFile::FileEncodingNotSupported();
 #endif // OSMIUM_WITH_PBF_INPUT
             } else {
 #ifdef OSMIUM_WITH_XML_INPUT
-                input = static_cast<Osmium::Input::Base<T>*>(new Osmium::Input::XML<T>(file, handler));
+                input.reset(new Osmium::Input::XML<T>(file, handler));
 #else
                 throw Osmium::OSMFile::FileEncodingNotSupported();
 #endif // OSMIUM_WITH_XML_INPUT
             }
 
             input->parse();
-            delete input;
         }
 
     } // namespace Input
-- 
2.43.0


From dbb7bd538ef7386a850f02f795f7702dbc85d75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 16/68] fix: report errors of the program decompressing or
 fetching an input file

---
 include/osmium/input.hpp     | 10 ++++++++++
 include/osmium/input/pbf.hpp |  1 +
 include/osmium/input/xml.hpp |  1 +
 3 files changed, 12 insertions(+)

diff --git a/include/osmium/input.hpp b/include/osmium/input.hpp
index 66ba5c0..4b1deb8 100644
--- a/include/osmium/input.hpp
+++ b/include/osmium/input.hpp
@@ -158,6 +158,16 @@ namespace Osmium {
                 m_handler.final();
             }
 
+            /**
+             * Close the input file. To be called when all data has been read.
+             *
+             * @throws IOError if the program decompressing or fetching the
+             *         data reported an error.
+             */
+            void close_file() {
+                m_file.close();
+            }
+
             Osmium::OSM::Meta& meta() {
                 return m_meta;
             }
diff --git a/include/osmium/input/pbf.hpp b/include/osmium/input/pbf.hpp
index 365e2b6..968e540 100644
--- a/include/osmium/input/pbf.hpp
+++ b/include/osmium/input/pbf.hpp
@@ -142,6 +142,7 @@ namespace Osmium {
 //                            std::cerr << "Ignoring unknown blob type (" << m_pbf_blob_header.type().data() << ").\n";
                         }
                     }
+                    this->close_file();
                     this->call_after_and_before_on_handler(UNKNOWN);
                 } catch (Osmium::Handler::StopReading) {
                     // if a handler says to stop reading, we do
diff --git a/include/osmium/input/xml.hpp b/include/osmium/input/xml.hpp
index 4c001e6..9d2d14e 100644
--- a/include/osmium/input/xml.hpp
+++ b/include/osmium/input/xml.hpp
@@ -101,6 +101,7 @@ namespace Osmium {
                         }
                     } while (!done);
 
+                    this->close_file();
                     this->call_after_and_before_on_handler(UNKNOWN);
                 } catch (Osmium::Handler::StopReading) {
                     // if a handler says to stop reading, we do
-- 
2.43.0


From 7e2465d6a30020838e64059195409d16ecab91bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 17/68] fix: report errors writing the last part of an XML file

---
 include/osmium/output/xml.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/osmium/output/xml.hpp b/include/osmium/output/xml.hpp
index 48632d3..0ea0841 100644
--- a/include/osmium/output/xml.hpp
+++ b/include/osmium/output/xml.hpp
@@ -158,7 +158,17 @@ namespace Osmium {
                     open_close_op_tag('\0');
                 }
                 check_for_error(xmlTextWriterEndElement(m_xml_writer)); // </osm> or </osmChange>
+
+                // A flush might write only part of the buffered data, and
+                // xmlFreeTextWriter() doesn't report errors.
+                int count;
+                do {
+                    count = xmlTextWriterFlush(m_xml_writer);
+                    check_for_error(count);
+                } while (count > 0);
+
                 xmlFreeTextWriter(m_xml_writer);
+                m_xml_writer = NULL;
                 m_file.close();
             }
 
-- 
2.43.0


From 2eb4440a5d25469233d5ec210ed5612170be7f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 18/68] fix: free the XML writer if the file is not finished
 with final()

---
 include/osmium/output/xml.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/osmium/output/xml.hpp b/include/osmium/output/xml.hpp
index 0ea0841..64104df 100644
--- a/include/osmium/output/xml.hpp
+++ b/include/osmium/output/xml.hpp
@@ -67,6 +67,12 @@ namespace Osmium {
                 }
             }
 
+            ~XML() {
+                if (m_xml_writer) {
+                    xmlFreeTextWriter(m_xml_writer);
+                }
+            }
+
             void init(Osmium::OSM::Meta& meta) {
                 check_for_error(xmlTextWriterSetIndent(m_xml_writer, 1));
                 check_for_error(xmlTextWriterSetIndentString(m_xml_writer, BAD_CAST "  "));
-- 
2.43.0


From b547bb9dec64c2e73d355bd779ec4cce44f38bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:58 +0000
Subject: [PATCH 19/68] fix: write all data to PBF files even if write()
 accepts only part of it

---
 include/osmium/output/pbf.hpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/osmium/output/pbf.hpp b/include/osmium/output/pbf.hpp
index 3f292e8..1778b2e 100644
--- a/include/osmium/output/pbf.hpp
+++ b/include/osmium/output/pbf.hpp
@@ -239,6 +239,21 @@ namespace Osmium {
 
             ///// Blob writing /////
 
+            /**
+             * Write all of the data to the file, write() might accept only
+             * part of it.
+             */
+            void write_data(const char* data, size_t size) {
+                while (size > 0) {
+                    ssize_t count = ::write(fd(), data, size);
+                    if (count < 0) {
+                        throw std::runtime_error("file error");
+                    }
+                    data += count;
+                    size -= count;
+                }
+            }
+
             /**
              * Take a string and pack its contents.
              *
@@ -352,15 +367,9 @@ namespace Osmium {
                 uint32_t sz = htonl(blobhead.size());
 
                 // write to the file: the 4-byte BlobHeader-Size followed by the BlobHeader followed by the Blob
-                if (::write(fd(), &sz, sizeof(sz)) < 0) {
-                    throw std::runtime_error("file error");
-                }
-                if (::write(fd(), blobhead.c_str(), blobhead.size()) < 0) {
-                    throw std::runtime_error("file error");
-                }
-                if (::write(fd(), data.c_str(), data.size()) < 0) {
-                    throw std::runtime_error("file error");
-                }
+                write_data(reinterpret_cast<const char*>(&sz), sizeof(sz));
+                write_data(blobhead.data(), blobhead.size());
+                write_data(data.data(), data.size());
             }
 
             /**
-- 
2.43.0


From facd5411c7fba52cbef659556498452c454e8667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:26 +0000
Subject: [PATCH 20/68] fix: do not access data out of bounds in broken PBF
 files

---
 include/osmium/input/pbf.hpp | 73 +++++++++++++++++++++++++++++-------
 1 file changed, 59 insertions(+), 14 deletions(-)

diff --git a/include/osmium/input/pbf.hpp b/include/osmium/input/pbf.hpp
index 968e540..850eea1 100644
--- a/include/osmium/input/pbf.hpp
+++ b/include/osmium/input/pbf.hpp
@@ -152,6 +152,26 @@ namespace Osmium {
 
         private:
 
+            /**
+            * Get string with given index from string table. Throws an exception
+            * if there is no such string.
+            */
+            static const char* string_from_table(const OSMPBF::StringTable& stringtable, const int64_t index) {
+                if (index < 0 || index >= stringtable.s_size()) {
+                    throw std::runtime_error("PBF format error: string index out of range.");
+                }
+                return stringtable.s(static_cast<int>(index)).data();
+            }
+
+            /**
+            * Throws an exception if an array has less entries than needed.
+            */
+            static void check_enough(const int needed, const int size) {
+                if (size < needed) {
+                    throw std::runtime_error("PBF format error: array too short.");
+                }
+            }
+
             /**
             * Parse one PrimitiveGroup inside a PrimitiveBlock. This function will check what
             * type of data the group contains (nodes, dense nodes, ways, or relations) and
@@ -198,16 +218,17 @@ namespace Osmium {
                         .changeset(pbf_node.info().changeset())
                         .timestamp(pbf_node.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_node.info().uid())
-                        .user(stringtable.s(pbf_node.info().user_sid()).data());
+                        .user(string_from_table(stringtable, pbf_node.info().user_sid()));
                         if (pbf_node.info().has_visible()) {
                             node.visible(pbf_node.info().visible());
                         }
                     }
 
                     Osmium::OSM::TagList& tags = node.tags();
+                    check_enough(pbf_node.keys_size(), pbf_node.vals_size());
                     for (int tag=0; tag < pbf_node.keys_size(); ++tag) {
-                        tags.add(stringtable.s(pbf_node.keys(tag)).data(),
-                                 stringtable.s(pbf_node.vals(tag)).data());
+                        tags.add(string_from_table(stringtable, pbf_node.keys(tag)),
+                                 string_from_table(stringtable, pbf_node.vals(tag)));
                     }
 
                     node.position(Osmium::OSM::Position(
@@ -236,16 +257,17 @@ namespace Osmium {
                         .changeset(pbf_way.info().changeset())
                         .timestamp(pbf_way.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_way.info().uid())
-                        .user(stringtable.s(pbf_way.info().user_sid()).data());
+                        .user(string_from_table(stringtable, pbf_way.info().user_sid()));
                         if (pbf_way.info().has_visible()) {
                             way.visible(pbf_way.info().visible());
                         }
                     }
 
                     Osmium::OSM::TagList& tags = way.tags();
+                    check_enough(pbf_way.keys_size(), pbf_way.vals_size());
                     for (int tag=0; tag < pbf_way.keys_size(); ++tag) {
-                        tags.add(stringtable.s(pbf_way.keys(tag)).data(),
-                                 stringtable.s(pbf_way.vals(tag)).data());
+                        tags.add(string_from_table(stringtable, pbf_way.keys(tag)),
+                                 string_from_table(stringtable, pbf_way.vals(tag)));
                     }
 
                     uint64_t ref = 0;
@@ -277,18 +299,21 @@ namespace Osmium {
                         .changeset(pbf_relation.info().changeset())
                         .timestamp(pbf_relation.info().timestamp() * m_date_granularity / 1000)
                         .uid(pbf_relation.info().uid())
-                        .user(stringtable.s(pbf_relation.info().user_sid()).data());
+                        .user(string_from_table(stringtable, pbf_relation.info().user_sid()));
                         if (pbf_relation.info().has_visible()) {
                             relation.visible(pbf_relation.info().visible());
                         }
                     }
 
                     Osmium::OSM::TagList& tags = relation.tags();
+                    check_enough(pbf_relation.keys_size(), pbf_relation.vals_size());
                     for (int tag=0; tag < pbf_relation.keys_size(); ++tag) {
-                        tags.add(stringtable.s(pbf_relation.keys(tag)).data(),
-                                 stringtable.s(pbf_relation.vals(tag)).data());
+                        tags.add(string_from_table(stringtable, pbf_relation.keys(tag)),
+                                 string_from_table(stringtable, pbf_relation.vals(tag)));
                     }
 
+                    check_enough(pbf_relation.types_size(), pbf_relation.memids_size());
+                    check_enough(pbf_relation.types_size(), pbf_relation.roles_sid_size());
                     uint64_t ref = 0;
                     for (int i=0; i < pbf_relation.types_size(); ++i) {
                         char type = 'x';
@@ -304,7 +329,7 @@ namespace Osmium {
                                 break;
                         }
                         ref += pbf_relation.memids(i);
-                        relation.add_member(type, ref, stringtable.s(pbf_relation.roles_sid(i)).data());
+                        relation.add_member(type, ref, string_from_table(stringtable, pbf_relation.roles_sid(i)));
                     }
 
                     this->call_relation_on_handler();
@@ -329,6 +354,18 @@ namespace Osmium {
 
                 const OSMPBF::DenseNodes& dense = group.dense();
                 int max_entity = dense.id_size();
+                check_enough(max_entity, dense.lat_size());
+                check_enough(max_entity, dense.lon_size());
+                if (dense.has_denseinfo()) {
+                    check_enough(max_entity, dense.denseinfo().version_size());
+                    check_enough(max_entity, dense.denseinfo().timestamp_size());
+                    check_enough(max_entity, dense.denseinfo().changeset_size());
+                    check_enough(max_entity, dense.denseinfo().uid_size());
+                    check_enough(max_entity, dense.denseinfo().user_sid_size());
+                    if (dense.denseinfo().visible_size() > 0) {
+                        check_enough(max_entity, dense.denseinfo().visible_size());
+                    }
+                }
                 for (int entity=0; entity < max_entity; ++entity) {
                     Osmium::OSM::Node& node = this->prepare_node();
 
@@ -345,7 +382,7 @@ namespace Osmium {
                         node.changeset(last_dense_changeset);
                         node.timestamp(last_dense_timestamp * m_date_granularity / 1000);
                         node.uid(last_dense_uid);
-                        node.user(stringtable.s(last_dense_user_sid).data());
+                        node.user(string_from_table(stringtable, last_dense_user_sid));
 
                         if (dense.denseinfo().visible_size() > 0) {
                             node.visible(dense.denseinfo().visible(entity));
@@ -366,9 +403,13 @@ namespace Osmium {
                             break;
                         }
 
+                        if (last_dense_tag + 1 >= dense.keys_vals_size()) {
+                            throw std::runtime_error("PBF format error: tag key without value.");
+                        }
+
                         Osmium::OSM::TagList& tags = node.tags();
-                        tags.add(stringtable.s(tag_key_pos).data(),
-                                 stringtable.s(dense.keys_vals(last_dense_tag+1)).data());
+                        tags.add(string_from_table(stringtable, tag_key_pos),
+                                 string_from_table(stringtable, dense.keys_vals(last_dense_tag+1)));
 
                         last_dense_tag += 2;
                     }
@@ -448,8 +489,12 @@ namespace Osmium {
                 if (m_pbf_blob.has_raw()) {
                     return array_t(m_pbf_blob.raw().data(), m_pbf_blob.raw().size());
                 } else if (m_pbf_blob.has_zlib_data()) {
+                    if (m_pbf_blob.raw_size() < 0 || m_pbf_blob.raw_size() > OSMPBF::max_uncompressed_blob_size) {
+                        std::ostringstream errmsg;
+                        errmsg << "invalid raw size of blob: " << m_pbf_blob.raw_size();
+                        throw std::runtime_error(errmsg.str());
+                    }
                     unsigned long raw_size = m_pbf_blob.raw_size();
-                    assert(raw_size <= static_cast<unsigned long>(OSMPBF::max_uncompressed_blob_size));
                     if (uncompress(m_unpack_buffer, &raw_size, reinterpret_cast<const unsigned char*>(m_pbf_blob.zlib_data().data()), m_pbf_blob.zlib_data().size()) != Z_OK || m_pbf_blob.raw_size() != static_cast<long>(raw_size)) {
                         throw std::runtime_error("zlib error");
                     }
-- 
2.43.0


From 8c78b087f01def1c6b96862bf23c3d69ddcecb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:26 +0000
Subject: [PATCH 21/68] fix: report PBF files cut off inside the size of a
 BlobHeader

---
 include/osmium/input/pbf.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/osmium/input/pbf.hpp b/include/osmium/input/pbf.hpp
index 850eea1..f4b0839 100644
--- a/include/osmium/input/pbf.hpp
+++ b/include/osmium/input/pbf.hpp
@@ -438,6 +438,9 @@ namespace Osmium {
                     if (nread < 0) {
                         throw std::runtime_error("read error");
                     } else if (nread == 0) {
+                        if (offset > 0) {
+                            throw std::runtime_error("failed to read size of BlobHeader");
+                        }
                         return false; // EOF
                     }
                     offset += nread;
-- 
2.43.0


From 3a3d9161070c02abedf90a8b68afa0885d2980f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:50 +0000
Subject: [PATCH 22/68] fix: MmapAnon must not unmap its memory twice and keep
 it if growing fails

---
 include/osmium/storage/byid/mmap_anon.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/osmium/storage/byid/mmap_anon.hpp b/include/osmium/storage/byid/mmap_anon.hpp
index 15979c0..11c5729 100644
--- a/include/osmium/storage/byid/mmap_anon.hpp
+++ b/include/osmium/storage/byid/mmap_anon.hpp
@@ -80,10 +80,11 @@ namespace Osmium {
                     if (id >= m_size) {
                         uint64_t new_size = id + size_increment;
 
-                        m_items = static_cast<TValue*>(mremap(m_items, sizeof(TValue) * m_size, sizeof(TValue) * new_size, MREMAP_MAYMOVE));
-                        if (m_items == MAP_FAILED) {
+                        void* items = mremap(m_items, sizeof(TValue) * m_size, sizeof(TValue) * new_size, MREMAP_MAYMOVE);
+                        if (items == MAP_FAILED) {
                             throw std::bad_alloc();
                         }
+                        m_items = static_cast<TValue*>(items);
                         m_size = new_size;
                     }
                     m_items[id] = value;
@@ -102,7 +103,11 @@ namespace Osmium {
                 }
 
                 void clear() {
-                    munmap(m_items, sizeof(TValue) * m_size);
+                    if (m_items) {
+                        munmap(m_items, sizeof(TValue) * m_size);
+                        m_items = NULL;
+                        m_size = 0;
+                    }
                 }
 
             private:
-- 
2.43.0


From bf12fffe6f707ddf1dce4ee262f56c022817a71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:50 +0000
Subject: [PATCH 23/68] fix: Vector storage returns the value set last for an
 id

---
 include/osmium/storage/byid/vector.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/osmium/storage/byid/vector.hpp b/include/osmium/storage/byid/vector.hpp
index f28376b..9f218ff 100644
--- a/include/osmium/storage/byid/vector.hpp
+++ b/include/osmium/storage/byid/vector.hpp
@@ -84,11 +84,12 @@ namespace Osmium {
 
                 const TValue operator[](const uint64_t id) const {
                     const item_t item(id);
-                    const item_vector_it_t result = std::lower_bound(m_items.begin(), m_items.end(), item);
-                    if (result == m_items.end() || *result != item) {
+                    // if there is more than one value for this id, the last one counts
+                    const item_vector_it_t result = std::upper_bound(m_items.begin(), m_items.end(), item);
+                    if (result == m_items.begin() || *(result-1) != item) {
                         return TValue(); // nothing found
                     } else {
-                        return result->value;
+                        return (result-1)->value;
                     }
                 }
 
-- 
2.43.0


From 3eb39e254601f3e2cd612b80bd14845527d512bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:50 +0000
Subject: [PATCH 24/68] fix: StlMap storage must release its memory on clear()

---
 include/osmium/storage/byid/stl_map.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/osmium/storage/byid/stl_map.hpp b/include/osmium/storage/byid/stl_map.hpp
index 1b43f48..454f6a9 100644
--- a/include/osmium/storage/byid/stl_map.hpp
+++ b/include/osmium/storage/byid/stl_map.hpp
@@ -65,6 +65,7 @@ namespace Osmium {
                 }
 
                 void clear() {
+                    m_items.clear();
                 }
 
             private:
-- 
2.43.0


From 1f63ece95f498ef04aa06ee6e36c7224c21a7ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:50 +0000
Subject: [PATCH 25/68] fix: MmapFile closes its file, unmaps its memory once
 and finds all items again when reopened

---
 include/osmium/storage/byid/mmap_file.hpp | 50 +++++++++++++++--------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/include/osmium/storage/byid/mmap_file.hpp b/include/osmium/storage/byid/mmap_file.hpp
index fcd60a1..36dbf02 100644
--- a/include/osmium/storage/byid/mmap_file.hpp
+++ b/include/osmium/storage/byid/mmap_file.hpp
@@ -65,13 +65,15 @@ namespace Osmium {
                 */
                 MmapFile(const std::string& filename="", bool remove=true) :
                     Base<TValue>(),
-                    m_size(1) {
+                    m_size(1),
+                    m_items(NULL) {
                     if (filename == "") {
                         FILE* file = tmpfile();
                         if (!file) {
                             throw std::bad_alloc();
                         }
-                        m_fd = fileno(file);
+                        m_fd = dup(fileno(file));
+                        fclose(file);
                     } else {
                         m_fd = open(filename.c_str(), O_RDWR | O_CREAT, 0600);
                     }
@@ -88,16 +90,19 @@ namespace Osmium {
                         }
                     }
 
-                    // make sure the file is at least as large as the initial size
-                    if (get_file_size() < sizeof(TValue) * m_size) {
-                        if (ftruncate(m_fd, sizeof(TValue) * m_size) < 0) {
+                    try {
+                        // if there are items in the file already, use all of them
+                        if (get_file_size() >= sizeof(TValue) * m_size) {
+                            m_size = get_file_size() / sizeof(TValue);
+                        // make sure the file is at least as large as the initial size
+                        } else if (ftruncate(m_fd, sizeof(TValue) * m_size) < 0) {
                             throw std::bad_alloc();
                         }
-                    }
 
-                    m_items = static_cast<TValue*>(mmap(NULL, sizeof(TValue) * m_size, PROT_READ | PROT_WRITE, MAP_SHARED, m_fd, 0));
-                    if (m_items == MAP_FAILED) {
-                        throw std::bad_alloc();
+                        m_items = map_items(m_size);
+                    } catch (...) {
+                        ::close(m_fd);
+                        throw;
                     }
                 }
 
@@ -116,13 +121,9 @@ namespace Osmium {
                             }
                         }
 
-                        if (munmap(m_items, sizeof(TValue) * m_size) < 0) {
-                            throw std::bad_alloc();
-                        }
-                        m_items = static_cast<TValue*>(mmap(NULL, sizeof(TValue) * new_size, PROT_READ | PROT_WRITE, MAP_SHARED, m_fd, 0));
-                        if (m_items == MAP_FAILED) {
-                            throw std::bad_alloc();
-                        }
+                        TValue* items = map_items(new_size);
+                        munmap(m_items, sizeof(TValue) * m_size);
+                        m_items = items;
                         m_size = new_size;
                     }
                     m_items[id] = value;
@@ -141,7 +142,13 @@ namespace Osmium {
                 }
 
                 void clear() {
-                    munmap(m_items, sizeof(TValue) * m_size);
+                    if (m_items) {
+                        munmap(m_items, sizeof(TValue) * m_size);
+                        m_items = NULL;
+                        m_size = 0;
+                        ::close(m_fd);
+                        m_fd = -1;
+                    }
                 }
 
             private:
@@ -152,6 +159,15 @@ namespace Osmium {
 
                 int m_fd;
 
+                /// Map the given number of items from the file into memory.
+                TValue* map_items(const uint64_t size) const {
+                    void* items = mmap(NULL, sizeof(TValue) * size, PROT_READ | PROT_WRITE, MAP_SHARED, m_fd, 0);
+                    if (items == MAP_FAILED) {
+                        throw std::bad_alloc();
+                    }
+                    return static_cast<TValue*>(items);
+                }
+
                 /// Get file size in bytes.
                 uint64_t get_file_size() const {
                     struct stat s;
-- 
2.43.0


From 3fd2a39946ce169c96460bf44035362335b318f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:42 +0000
Subject: [PATCH 26/68] fix: do not let exceptions propagate through expat, it
 would not free the parser

---
 include/osmium/input/xml.hpp | 46 +++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/include/osmium/input/xml.hpp b/include/osmium/input/xml.hpp
index 9d2d14e..6258765 100644
--- a/include/osmium/input/xml.hpp
+++ b/include/osmium/input/xml.hpp
@@ -27,6 +27,7 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <exception>
 #include <iostream>
 #include <sstream>
 #include <stdexcept>
@@ -61,6 +62,8 @@ namespace Osmium {
             XML(const Osmium::OSMFile& file, THandler& handler) :
                 Base<THandler>(file, handler),
                 m_current_object(NULL),
+                m_parser(NULL),
+                m_exception(),
                 m_context(context_root),
                 m_last_context(context_root),
                 m_ignored_elements(0),
@@ -70,6 +73,7 @@ namespace Osmium {
             void parse() {
                 const ParserHolder parser_holder;
                 const XML_Parser parser = parser_holder.parser;
+                m_parser = parser;
 
                 XML_SetUserData(parser, this);
 
@@ -88,7 +92,11 @@ namespace Osmium {
                             throw std::runtime_error("read error");
                         }
                         done = (result == 0);
-                        if (XML_ParseBuffer(parser, result, done) == XML_STATUS_ERROR) {
+                        const XML_Status status = XML_ParseBuffer(parser, result, done);
+                        if (m_exception) {
+                            std::rethrow_exception(m_exception);
+                        }
+                        if (status == XML_STATUS_ERROR) {
                             XML_Error errorCode = XML_GetErrorCode(parser);
                             long errorLine = XML_GetCurrentLineNumber(parser);
                             long errorCol = XML_GetCurrentColumnNumber(parser);
@@ -135,6 +143,16 @@ namespace Osmium {
 
             Osmium::OSM::Object* m_current_object;
 
+            XML_Parser m_parser;
+
+            /**
+             * Exception thrown while handling an element. It must not
+             * propagate through expat (which is written in C and does not
+             * free a parser while it is in one of its callbacks), so it is
+             * kept here and thrown again after expat returned.
+             */
+            std::exception_ptr m_exception;
+
             enum context_t {
                 context_root,
                 context_top,
@@ -160,11 +178,33 @@ namespace Osmium {
             bool m_in_delete_section;
 
             static void XMLCALL start_element_wrapper(void* data, const XML_Char* element, const XML_Char** attrs) {
-                static_cast<Osmium::Input::XML<THandler> *>(data)->start_element(element, attrs);
+                Osmium::Input::XML<THandler>* const input = static_cast<Osmium::Input::XML<THandler> *>(data);
+                if (input->m_exception) {
+                    return;
+                }
+                try {
+                    input->start_element(element, attrs);
+                } catch (...) {
+                    input->stop_parser();
+                }
             }
 
             static void XMLCALL end_element_wrapper(void* data, const XML_Char* element) {
-                static_cast<Osmium::Input::XML<THandler> *>(data)->end_element(element);
+                Osmium::Input::XML<THandler>* const input = static_cast<Osmium::Input::XML<THandler> *>(data);
+                if (input->m_exception) {
+                    return;
+                }
+                try {
+                    input->end_element(element);
+                } catch (...) {
+                    input->stop_parser();
+                }
+            }
+
+            // called in exception handlers only
+            void stop_parser() {
+                m_exception = std::current_exception();
+                XML_StopParser(m_parser, XML_FALSE);
             }
 
             void init_object(Osmium::OSM::Object& obj, const XML_Char** attrs) {
-- 
2.43.0


From fca1a19c3c3248712a61525f7c4b4fc87b600359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:17 +0000
Subject: [PATCH 27/68] fix: objects with ids n and -n must not compare as
 equal

---
 include/osmium/osm/area.hpp     | 3 +++
 include/osmium/osm/node.hpp     | 3 +++
 include/osmium/osm/relation.hpp | 3 +++
 include/osmium/osm/way.hpp      | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/include/osmium/osm/area.hpp b/include/osmium/osm/area.hpp
index a5979f6..8c62772 100644
--- a/include/osmium/osm/area.hpp
+++ b/include/osmium/osm/area.hpp
@@ -137,6 +137,9 @@ namespace Osmium {
         inline bool operator<(const Area& lhs, const Area& rhs) {
             if (lhs.id() == rhs.id()) {
                 return lhs.version() < rhs.version();
+            } else if (lhs.id() == -rhs.id()) {
+                // different objects must not compare as equal
+                return lhs.id() < rhs.id();
             } else {
                 return std::abs(lhs.id()) < std::abs(rhs.id());
             }
diff --git a/include/osmium/osm/node.hpp b/include/osmium/osm/node.hpp
index f4dea1f..12e683e 100644
--- a/include/osmium/osm/node.hpp
+++ b/include/osmium/osm/node.hpp
@@ -87,6 +87,9 @@ namespace Osmium {
         inline bool operator<(const Node& lhs, const Node& rhs) {
             if (lhs.id() == rhs.id()) {
                 return lhs.version() < rhs.version();
+            } else if (lhs.id() == -rhs.id()) {
+                // different objects must not compare as equal
+                return lhs.id() < rhs.id();
             } else {
                 return std::abs(lhs.id()) < std::abs(rhs.id());
             }
diff --git a/include/osmium/osm/relation.hpp b/include/osmium/osm/relation.hpp
index e20dadf..38cf9dd 100644
--- a/include/osmium/osm/relation.hpp
+++ b/include/osmium/osm/relation.hpp
@@ -78,6 +78,9 @@ namespace Osmium {
         inline bool operator<(const Relation& lhs, const Relation& rhs) {
             if (lhs.id() == rhs.id()) {
                 return lhs.version() < rhs.version();
+            } else if (lhs.id() == -rhs.id()) {
+                // different objects must not compare as equal
+                return lhs.id() < rhs.id();
             } else {
                 return std::abs(lhs.id()) < std::abs(rhs.id());
             }
diff --git a/include/osmium/osm/way.hpp b/include/osmium/osm/way.hpp
index 89562a9..8670f5a 100644
--- a/include/osmium/osm/way.hpp
+++ b/include/osmium/osm/way.hpp
@@ -113,6 +113,9 @@ namespace Osmium {
         inline bool operator<(const Way& lhs, const Way& rhs) {
             if (lhs.id() == rhs.id()) {
                 return lhs.version() < rhs.version();
+            } else if (lhs.id() == -rhs.id()) {
+                // different objects must not compare as equal
+                return lhs.id() < rhs.id();
             } else {
                 return std::abs(lhs.id()) < std::abs(rhs.id());
             }
-- 
2.43.0


From 1bc8bc206c7249b81cf4e39da6bc8289e74f3831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:13 +0000
Subject: [PATCH 28/68] fix: objects of types not in the stream were lost when
 merging an object store

---
 include/osmium/storage/objectstore.hpp | 73 ++++++++++++++++++++++++++
 1 file changed, 73 insertions(+)

diff --git a/include/osmium/storage/objectstore.hpp b/include/osmium/storage/objectstore.hpp
index 628d23b..2f73aa2 100644
--- a/include/osmium/storage/objectstore.hpp
+++ b/include/osmium/storage/objectstore.hpp
@@ -178,6 +178,7 @@ namespace Osmium {
                     m_object_store(object_store),
                     m_handler(handler),
                     m_meta(meta),
+                    m_in_callback(false),
                     m_nodes_iter(object_store.m_nodes.begin()),
                     m_nodes_end(object_store.m_nodes.end()),
                     m_ways_iter(object_store.m_ways.begin()),
@@ -187,7 +188,14 @@ namespace Osmium {
                 }
 
                 void init(const Osmium::OSM::Meta&) {
+                    m_in_callback = true;
                     m_handler.init(m_meta);
+                    m_in_callback = false;
+                }
+
+                void before_nodes() {
+                    m_in_callback = true;
+                    m_handler.before_nodes();
                 }
 
                 void node(const shared_ptr<Osmium::OSM::Node>& node) {
@@ -203,6 +211,14 @@ namespace Osmium {
                     }
                     m_handler.after_nodes();
                     m_object_store.clear_nodes();
+                    m_in_callback = false;
+                }
+
+                void before_ways() {
+                    m_in_callback = true;
+                    add_remaining_nodes();
+                    m_in_callback = true;
+                    m_handler.before_ways();
                 }
 
                 void way(const shared_ptr<Osmium::OSM::Way>& way) {
@@ -218,6 +234,15 @@ namespace Osmium {
                     }
                     m_handler.after_ways();
                     m_object_store.clear_ways();
+                    m_in_callback = false;
+                }
+
+                void before_relations() {
+                    m_in_callback = true;
+                    add_remaining_nodes();
+                    add_remaining_ways();
+                    m_in_callback = true;
+                    m_handler.before_relations();
                 }
 
                 void relation(const shared_ptr<Osmium::OSM::Relation>& relation) {
@@ -233,14 +258,62 @@ namespace Osmium {
                     }
                     m_handler.after_relations();
                     m_object_store.clear_relations();
+                    m_in_callback = false;
+                }
+
+                void final() {
+                    // if reading was stopped, the handler doesn't want any more objects
+                    if (!m_in_callback) {
+                        try {
+                            add_remaining_nodes();
+                            add_remaining_ways();
+                            add_remaining_relations();
+                        } catch (Osmium::Handler::StopReading) {
+                            // nothing more to do except calling final()
+                        }
+                    }
+                    m_handler.final();
                 }
 
             private:
 
+                /*
+                   The following methods are for the case that there are objects
+                   of some type in the store, but none in the stream, so that the
+                   before/after_*() methods for this type are never called.
+                */
+                void add_remaining_nodes() {
+                    if (m_nodes_iter != m_nodes_end) {
+                        m_handler.before_nodes();
+                        after_nodes();
+                    }
+                }
+
+                void add_remaining_ways() {
+                    if (m_ways_iter != m_ways_end) {
+                        m_handler.before_ways();
+                        after_ways();
+                    }
+                }
+
+                void add_remaining_relations() {
+                    if (m_relations_iter != m_relations_end) {
+                        m_handler.before_relations();
+                        after_relations();
+                    }
+                }
+
                 ObjectStore& m_object_store;
                 THandler& m_handler;
                 Osmium::OSM::Meta& m_meta;
 
+                /**
+                 * Set from the before_*() to the after_*() methods and in
+                 * init(). If this is still set in final(), reading was stopped.
+                 */
+                bool m_in_callback;
+
+
                 ObjectStore::nodeset::iterator     m_nodes_iter;
                 ObjectStore::nodeset::iterator     m_nodes_end;
                 ObjectStore::wayset::iterator      m_ways_iter;
-- 
2.43.0


From 25bb77b7bad1b72d802db02f7ef43b6c520f6dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:56 +0000
Subject: [PATCH 29/68] fix: call all_members_available() also if a wanted type
 of objects is not in the input

---
 include/osmium/relations/assembler.hpp | 42 +++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/include/osmium/relations/assembler.hpp b/include/osmium/relations/assembler.hpp
index a99ec56..2be4bad 100644
--- a/include/osmium/relations/assembler.hpp
+++ b/include/osmium/relations/assembler.hpp
@@ -361,6 +361,19 @@ namespace Osmium {
                  */
                 int m_want_types;
 
+                /**
+                 * Object types after() has been called for. The after_*()
+                 * methods are not called for types not in the input, for
+                 * those we call it at the end.
+                 */
+                bool m_type_done[3];
+
+                /**
+                 * Set from the before_*() to the after_*() methods. If this
+                 * is still set in final(), reading was stopped.
+                 */
+                bool m_in_type;
+
                 /**
                  * Find this object in the member vectors and add it to all
                  * relations that need it.
@@ -397,6 +410,10 @@ namespace Osmium {
                  * all_members_available() if they are.
                  */
                 void after(osm_object_type_t type) {
+                    if (m_type_done[type]) {
+                        return;
+                    }
+                    m_type_done[type] = true;
                     // clear all memory used by m_member_info of this type
                     member_info_vector_t().swap(m_assembler.m_member_infos[type]);
                     if (--m_want_types == 0) {
@@ -408,14 +425,19 @@ namespace Osmium {
 
                 HandlerPass2(TAssembler& assembler) :
                     m_assembler(assembler),
-                    m_want_types((N?1:0) + (W?1:0) + (R?1:0)) {
+                    m_want_types((N?1:0) + (W?1:0) + (R?1:0)),
+                    m_in_type(false) {
+                    m_type_done[NODE]     = !N;
+                    m_type_done[WAY]      = !W;
+                    m_type_done[RELATION] = !R;
                 }
 
                 void init(Osmium::OSM::Meta& meta) const {
                     m_assembler.m_next_handler.init(meta);
                 }
 
-                void before_nodes() const {
+                void before_nodes() {
+                    m_in_type = true;
                     m_assembler.m_next_handler.before_nodes();
                 }
 
@@ -433,9 +455,11 @@ namespace Osmium {
                         after(NODE);
                     }
                     m_assembler.m_next_handler.after_nodes();
+                    m_in_type = false;
                 }
 
-                void before_ways() const {
+                void before_ways() {
+                    m_in_type = true;
                     m_assembler.m_next_handler.before_ways();
                 }
 
@@ -453,9 +477,11 @@ namespace Osmium {
                         after(WAY);
                     }
                     m_assembler.m_next_handler.after_ways();
+                    m_in_type = false;
                 }
 
-                void before_relations() const {
+                void before_relations() {
+                    m_in_type = true;
                     m_assembler.m_next_handler.before_relations();
                 }
 
@@ -473,9 +499,15 @@ namespace Osmium {
                         after(RELATION);
                     }
                     m_assembler.m_next_handler.after_relations();
+                    m_in_type = false;
                 }
 
-                void final() const {
+                void final() {
+                    if (!m_in_type) {
+                        after(NODE);
+                        after(WAY);
+                        after(RELATION);
+                    }
                     m_assembler.m_next_handler.final();
                 }
 
-- 
2.43.0


From 54882ddba3a9147f0d00f1aa6f16585407b5a430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:32 +0000
Subject: [PATCH 30/68] fix: is_closed() must not access the nodes of an empty
 WayNodeList

---
 include/osmium/osm/way_node_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/osmium/osm/way_node_list.hpp b/include/osmium/osm/way_node_list.hpp
index 3d79e74..b88566b 100644
--- a/include/osmium/osm/way_node_list.hpp
+++ b/include/osmium/osm/way_node_list.hpp
@@ -125,7 +125,7 @@ namespace Osmium {
             }
 
             bool is_closed() const {
-                return m_list.front().ref() == m_list.back().ref();
+                return !m_list.empty() && m_list.front().ref() == m_list.back().ref();
             }
 
             bool has_position() const {
-- 
2.43.0


From a970e0b3ba11a99af2657c84139f7e8866e888a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:32 +0000
Subject: [PATCH 31/68] fix: write polygons as WKT and WKB in reverse if asked
 to

---
 include/osmium/geometry/polygon.hpp | 32 ++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/include/osmium/geometry/polygon.hpp b/include/osmium/geometry/polygon.hpp
index 5128c0d..7648699 100644
--- a/include/osmium/geometry/polygon.hpp
+++ b/include/osmium/geometry/polygon.hpp
@@ -67,7 +67,11 @@ namespace Osmium {
                 }
                 LonLatListWriter<Osmium::OSM::WayNode> writer(out);
                 out << "POLYGON((" << std::setprecision(10);
-                for_each(nodes().begin(), nodes().end(), writer);
+                if (reverse()) {
+                    for_each(nodes().rbegin(), nodes().rend(), writer);
+                } else {
+                    for_each(nodes().begin(), nodes().end(), writer);
+                }
                 return out << "))";
             }
 
@@ -75,9 +79,16 @@ namespace Osmium {
                 write_binary_wkb_header(out, with_srid, wkbPolygon);
                 write_binary<uint32_t>(out, 1); // ring count
                 write_binary<uint32_t>(out, nodes().size()); // ring #1 point count
-                for (Osmium::OSM::WayNodeList::const_iterator it = nodes().begin(); it != nodes().end(); ++it) {
-                    write_binary<double>(out, it->lon());
-                    write_binary<double>(out, it->lat());
+                if (reverse()) {
+                    for (Osmium::OSM::WayNodeList::const_reverse_iterator it = nodes().rbegin(); it != nodes().rend(); ++it) {
+                        write_binary<double>(out, it->lon());
+                        write_binary<double>(out, it->lat());
+                    }
+                } else {
+                    for (Osmium::OSM::WayNodeList::const_iterator it = nodes().begin(); it != nodes().end(); ++it) {
+                        write_binary<double>(out, it->lon());
+                        write_binary<double>(out, it->lat());
+                    }
                 }
                 return out;
             }
@@ -86,9 +97,16 @@ namespace Osmium {
                 write_hex_wkb_header(out, with_srid, wkbPolygon);
                 write_hex<uint32_t>(out, 1); // ring count
                 write_hex<uint32_t>(out, nodes().size()); // ring #1 point count
-                for (Osmium::OSM::WayNodeList::const_iterator it = nodes().begin(); it != nodes().end(); ++it) {
-                    write_hex<double>(out, it->lon());
-                    write_hex<double>(out, it->lat());
+                if (reverse()) {
+                    for (Osmium::OSM::WayNodeList::const_reverse_iterator it = nodes().rbegin(); it != nodes().rend(); ++it) {
+                        write_hex<double>(out, it->lon());
+                        write_hex<double>(out, it->lat());
+                    }
+                } else {
+                    for (Osmium::OSM::WayNodeList::const_iterator it = nodes().begin(); it != nodes().end(); ++it) {
+                        write_hex<double>(out, it->lon());
+                        write_hex<double>(out, it->lat());
+                    }
                 }
                 return out;
             }
-- 
2.43.0


From 14233cf5eec306b7ba7afeb213f05bb71dbd906d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:13 +0000
Subject: [PATCH 32/68] fix: distance between nearly antipodal positions must
 not be NaN

---
 include/osmium/geometry/haversine.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/osmium/geometry/haversine.hpp b/include/osmium/geometry/haversine.hpp
index 1b90149..6ba1d94 100644
--- a/include/osmium/geometry/haversine.hpp
+++ b/include/osmium/geometry/haversine.hpp
@@ -22,6 +22,9 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 
 */
 
+#include <algorithm>
+#include <cmath>
+
 #include <osmium/osm/position.hpp>
 #include <osmium/osm/way_node_list.hpp>
 
@@ -53,7 +56,8 @@ namespace Osmium {
                 double lath = sin(lat_arc * 0.5);
                 lath *= lath;
                 const double tmp = cos(y1 * DEG_TO_RAD) * cos(y2 * DEG_TO_RAD);
-                return 2.0 * EARTH_RADIUS_IN_METERS * asin(sqrt(lath + tmp*lonh));
+                // rounding errors can lead to a value slightly larger than 1 for (nearly) antipodal points
+                return 2.0 * EARTH_RADIUS_IN_METERS * asin(std::min(1.0, sqrt(lath + tmp*lonh)));
             }
 
             inline double distance(const Osmium::OSM::Position& from, const Osmium::OSM::Position& to) {
-- 
2.43.0


From a3744db7f27f8fa52d0e72ceee15b315405f2125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:28 +0000
Subject: [PATCH 33/68] fix: undefined positions must not extend a bounding box

---
 include/osmium/osm/bounds.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/osmium/osm/bounds.hpp b/include/osmium/osm/bounds.hpp
index da69a42..1ec1b76 100644
--- a/include/osmium/osm/bounds.hpp
+++ b/include/osmium/osm/bounds.hpp
@@ -38,6 +38,9 @@ namespace Osmium {
             }
 
             Bounds& extend(const Position& position) {
+                if (!position.defined()) {
+                    return *this;
+                }
                 if (m_bottom_left.defined()) {
                     if (position.x() < m_bottom_left.x()) m_bottom_left.x(position.x());
                     if (position.x() > m_top_right.x()  ) m_top_right.x(position.x());
-- 
2.43.0


From 46930f4bd5e9084f9e0dd62bd2c90f49b8efd439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:28 +0000
Subject: [PATCH 34/68] fix: osmium_find_bbox must print the bounding box with
 full precision

---
 examples/osmium_find_bbox.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/examples/osmium_find_bbox.cpp b/examples/osmium_find_bbox.cpp
index d9ac1ce..30fd337 100644
--- a/examples/osmium_find_bbox.cpp
+++ b/examples/osmium_find_bbox.cpp
@@ -6,6 +6,7 @@
 
 */
 
+#include <iomanip>
 #include <iostream>
 
 #define OSMIUM_WITH_PBF_INPUT
@@ -27,7 +28,8 @@ int main(int argc, char* argv[]) {
     Osmium::Input::read(infile, handler);
 
     Osmium::OSM::Bounds bounds = handler.bounds();
-    std::cout <<  "minlon=" << bounds.bottom_left().lon()
+    std::cout << std::setprecision(10)
+              << "minlon=" << bounds.bottom_left().lon()
               << " minlat=" << bounds.bottom_left().lat()
               << " maxlon=" << bounds.top_right().lon()
               << " maxlat=" << bounds.top_right().lat() << std::endl;
-- 
2.43.0


From 8c91a5349ea64c92d0afda1b516ffdbc2be8b885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:36 +0000
Subject: [PATCH 35/68] fix: Timestamp::to_iso() must not share a buffer
 between threads and must handle times gmtime can't

---
 include/osmium/utils/timestamp.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/osmium/utils/timestamp.hpp b/include/osmium/utils/timestamp.hpp
index 49be3e9..2825a7c 100644
--- a/include/osmium/utils/timestamp.hpp
+++ b/include/osmium/utils/timestamp.hpp
@@ -55,7 +55,15 @@ namespace Osmium {
             if (timestamp == 0) {
                 return std::string("");
             }
+#ifndef WIN32
+            struct tm tm_buffer; // std::gmtime() uses a buffer shared between threads
+            struct tm* tm = gmtime_r(&timestamp, &tm_buffer);
+#else
             struct tm* tm = std::gmtime(&timestamp);
+#endif
+            if (tm == NULL) { // year does not fit into struct tm
+                return std::string("");
+            }
             std::string s(timestamp_length, '\0');
             /* This const_cast is ok, because we know we have enough space
                in the string for the format we are using (well at least until
-- 
2.43.0


From 7d6744bc7a3bec415ff9de7bc88e2ec217ffd1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:38 +0000
Subject: [PATCH 36/68] fix: dots in directory names are not the start of the
 suffix of a file

---
 include/osmium/osmfile.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index cfb0b24..9d64297 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -690,7 +690,12 @@ namespace Osmium {
         }
 
         std::string filename_without_suffix() const {
-            return m_filename.substr(0, m_filename.find_first_of('.'));
+            // only the last part of the path can have a suffix
+            size_t n = m_filename.find_last_of('/');
+            if (n == std::string::npos) {
+                n = 0;
+            }
+            return m_filename.substr(0, m_filename.find_first_of('.', n));
         }
 
         std::string filename_with_default_suffix() const {
-- 
2.43.0


From e8966d85e7df91260e8a4ccad553c5564d20a693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:38 +0000
Subject: [PATCH 37/68] fix: a file name without dot has no suffix

---
 include/osmium/osmfile.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index 9d64297..8584392 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -479,7 +479,8 @@ namespace Osmium {
             } else {
                 ++n;
             }
-            std::string suffix(filename.substr(filename.find_first_of('.', n)+1));
+            n = filename.find_first_of('.', n);
+            std::string suffix(n == std::string::npos ? "" : filename.substr(n+1));
 
             set_type_and_encoding(suffix);
         }
-- 
2.43.0


From ad069b3f1fda7daf89341db7b491c17897a55a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:38 +0000
Subject: [PATCH 38/68] fix: files named "http" or "https" are not URLs

---
 include/osmium/osmfile.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/osmium/osmfile.hpp b/include/osmium/osmfile.hpp
index 8584392..1efecf0 100644
--- a/include/osmium/osmfile.hpp
+++ b/include/osmium/osmfile.hpp
@@ -433,8 +433,8 @@ namespace Osmium {
          * @throws IOError if the file can't be opened.
          */
         int open_input_file_or_url() {
-            std::string protocol = m_filename.substr(0, m_filename.find_first_of(':'));
-            if (protocol == "http" || protocol == "https") {
+            std::string protocol = m_filename.substr(0, m_filename.find_first_of(':')+1);
+            if (protocol == "http:" || protocol == "https:") {
                 return execute("curl", 0);
             } else {
                 return open_input_file();
@@ -466,8 +466,8 @@ namespace Osmium {
             }
 
             // filename is actually a URL
-            std::string protocol = m_filename.substr(0, m_filename.find_first_of(':'));
-            if (protocol == "http" || protocol == "https") {
+            std::string protocol = m_filename.substr(0, m_filename.find_first_of(':')+1);
+            if (protocol == "http:" || protocol == "https:") {
                 default_settings_for_url();
                 return;
             }
-- 
2.43.0


From c2d931f04ccbd943fee02ff189d3d5014978a19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:18 +0000
Subject: [PATCH 39/68] fix: do not access memory before the text when
 truncating to a field width of 1 or 2

---
 include/osmium/export/shapefile.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/osmium/export/shapefile.hpp b/include/osmium/export/shapefile.hpp
index 2f5e6a4..cffc9eb 100644
--- a/include/osmium/export/shapefile.hpp
+++ b/include/osmium/export/shapefile.hpp
@@ -269,9 +269,9 @@ namespace Osmium {
                 if (dest[i] & 128) {
                     if (dest[i] & 64) {
                         dest[i] = '\0';
-                    } else if ((dest[i-1] & 224) == 224) {
+                    } else if (i >= 1 && (dest[i-1] & 224) == 224) {
                         dest[i-1] = '\0';
-                    } else if ((dest[i-2] & 240) == 240) {
+                    } else if (i >= 2 && (dest[i-2] & 240) == 240) {
                         dest[i-2] = '\0';
                     }
                 }
-- 
2.43.0


From 353a87ba39b2fa024d20631764fdaac7eeef5ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:18 +0000
Subject: [PATCH 40/68] fix: free shape objects which can not be added to a
 shapefile

---
 include/osmium/export/shapefile.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/osmium/export/shapefile.hpp b/include/osmium/export/shapefile.hpp
index cffc9eb..ee05d01 100644
--- a/include/osmium/export/shapefile.hpp
+++ b/include/osmium/export/shapefile.hpp
@@ -197,6 +197,7 @@ namespace Osmium {
              */
             void add_geometry(SHPObject* shp_object) {
                 if (!shp_object || shp_object->nSHPType != m_shp_handle->nShapeType) {
+                    SHPDestroyObject(shp_object);
                     throw Osmium::Geometry::IllegalGeometry();
                 }
                 m_dbf_bytes += m_record_length;
@@ -211,10 +212,10 @@ namespace Osmium {
                 }
 
                 m_current_shape = SHPWriteObject(m_shp_handle, -1, shp_object);
+                SHPDestroyObject(shp_object);
                 if (m_current_shape == -1) {
                     throw std::runtime_error("error writing to shapefile");
                 }
-                SHPDestroyObject(shp_object);
             }
 
             void add_attribute(const int field, const bool value) const {
-- 
2.43.0


From 39698cf969932c184aa88ac64ec3b7d62ee4ed97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:54 +0000
Subject: [PATCH 41/68] fix: write a row to the attribute table for shapes
 without attributes, too

---
 include/osmium/export/shapefile.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/osmium/export/shapefile.hpp b/include/osmium/export/shapefile.hpp
index ee05d01..dec78a6 100644
--- a/include/osmium/export/shapefile.hpp
+++ b/include/osmium/export/shapefile.hpp
@@ -216,6 +216,11 @@ namespace Osmium {
                 if (m_current_shape == -1) {
                     throw std::runtime_error("error writing to shapefile");
                 }
+
+                // make sure there is a row for this shape even if none of its attributes will be set
+                if (!m_fields.empty() && !DBFWriteNULLAttribute(m_dbf_handle, m_current_shape, 0)) {
+                    throw std::runtime_error("error writing to attribute table of shapefile");
+                }
             }
 
             void add_attribute(const int field, const bool value) const {
-- 
2.43.0


From 429ce7ab79b13e614bc6692105588e5c7dc87a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:54 +0000
Subject: [PATCH 42/68] fix: include iostream in shplib.hpp

---
 include/osmium/geometry/shplib.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/osmium/geometry/shplib.hpp b/include/osmium/geometry/shplib.hpp
index f15565a..9d9d23f 100644
--- a/include/osmium/geometry/shplib.hpp
+++ b/include/osmium/geometry/shplib.hpp
@@ -25,6 +25,7 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 #define OSMIUM_COMPILE_WITH_CFLAGS_SHP `geos-config --cflags`
 #define OSMIUM_LINK_WITH_LIBS_SHP -lshp `geos-config --libs`
 
+#include <iostream>
 #include <vector>
 #include <shapefil.h>
 #include <geos/geom/Geometry.h>
-- 
2.43.0


From 1e05b5e12cb249c01f1eaac4f5c30e566642e307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 43/68] fix: print the bounds with full precision in debug
 dumps

---
 include/osmium/handler/debug.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/osmium/handler/debug.hpp b/include/osmium/handler/debug.hpp
index 01a8237..f7d7973 100644
--- a/include/osmium/handler/debug.hpp
+++ b/include/osmium/handler/debug.hpp
@@ -52,7 +52,7 @@ namespace Osmium {
                 }
 
                 if (meta.bounds().defined()) {
-                    m_output_stream << "  bounds=" << meta.bounds() << "\n";
+                    m_output_stream << "  bounds=" << std::setprecision(10) << meta.bounds() << "\n";
                 }
             }
 
-- 
2.43.0


From d3cde7cc76316f79e2bde4d1fcaeb6e5f9442222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 44/68] fix: copy areas without geometry, free the old geometry
 on assignment

---
 include/osmium/osm/area.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/osmium/osm/area.hpp b/include/osmium/osm/area.hpp
index 8c62772..387e926 100644
--- a/include/osmium/osm/area.hpp
+++ b/include/osmium/osm/area.hpp
@@ -65,6 +65,11 @@ namespace Osmium {
                 return m_geos_geometry;
             }
 
+            /// Areas created from ways have no geometry until it is needed.
+            static geos::geom::MultiPolygon* clone_geos_geometry(const Area& area) {
+                return area.m_geos_geometry ? dynamic_cast<geos::geom::MultiPolygon*>(area.m_geos_geometry->clone()) : NULL;
+            }
+
         public:
 
             /// Construct an Area object from a Relation object.
@@ -86,7 +91,7 @@ namespace Osmium {
             Area(const Area& area) :
                 Object(area),
                 m_node_list(area.m_node_list),
-                m_geos_geometry(dynamic_cast<geos::geom::MultiPolygon*>(area.m_geos_geometry->clone())) {
+                m_geos_geometry(clone_geos_geometry(area)) {
             }
 
             Area& operator=(const Area& area) {
@@ -100,7 +105,10 @@ namespace Osmium {
                 visible(area.visible());
                 tags(area.tags());
                 m_node_list = area.m_node_list;
-                m_geos_geometry = dynamic_cast<geos::geom::MultiPolygon*>(area.m_geos_geometry->clone());
+                if (this != &area) {
+                    delete m_geos_geometry;
+                    m_geos_geometry = clone_geos_geometry(area);
+                }
                 return *this;
             }
 
-- 
2.43.0


From ce2bab49408e49b3bfc84534efe35eb5696fac82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 45/68] fix: find the directly containing rings of deeply
 nested multipolygons

---
 include/osmium/multipolygon/builder.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/osmium/multipolygon/builder.hpp b/include/osmium/multipolygon/builder.hpp
index 12ce7c1..660f7a2 100644
--- a/include/osmium/multipolygon/builder.hpp
+++ b/include/osmium/multipolygon/builder.hpp
@@ -716,8 +716,10 @@ namespace Osmium {
                 // we now have an array that has a true value whenever something is
                 // contained by something else; if a contains b and b contains c, then
                 // our array says that a contains b, b contains c, and a contains c.
-                // thin out the array so that only direct relationships remain (and
-                // the "a contains c" is dropped).
+                // thin out a copy of the array so that only direct relationships
+                // remain (and the "a contains c" is dropped).
+
+                std::vector<bs_t> contains_directly(contains);
 
                 for (unsigned int i=0; i < m_ringlist.size(); ++i) {
                     for (unsigned j=0; j < m_ringlist.size(); ++j) {
@@ -729,7 +731,7 @@ namespace Osmium {
                                 if (contains[i][k] && contains[k][j]) {
                                     // intermediary relationship exists; break this
                                     // one up.
-                                    contains[i][j] = false;
+                                    contains_directly[i][j] = false;
                                     break;
                                 }
                             }
@@ -738,12 +740,12 @@ namespace Osmium {
                 }
 
                 // populate the "inner_rings" list and the "contained_by" pointer
-                // in the ring list based on the data collected. the "contains"
-                // array can be thrown away afterwards.
+                // in the ring list based on the data collected. the arrays
+                // can be thrown away afterwards.
 
                 for (unsigned int i=0; i < m_ringlist.size(); ++i) {
                     for (unsigned int j=0; j < m_ringlist.size(); ++j) {
-                        if (contains[i][j] && !contained_by_even_number[j]) {
+                        if (contains_directly[i][j] && !contained_by_even_number[j]) {
                             m_ringlist[j]->contained_by = m_ringlist[i];
                             m_ringlist[i]->inner_rings.push_back(m_ringlist[j]);
                         }
-- 
2.43.0


From c4ce0b2619d94f0fa92f52a4337b173d63b4cd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 46/68] fix: write the right SRID into WKB of multipolygons

---
 include/osmium/geometry/geos.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/osmium/geometry/geos.hpp b/include/osmium/geometry/geos.hpp
index b41542c..e46e0e5 100644
--- a/include/osmium/geometry/geos.hpp
+++ b/include/osmium/geometry/geos.hpp
@@ -51,7 +51,7 @@ namespace Osmium {
          */
         inline geos::geom::GeometryFactory* geos_geometry_factory() {
             static geos::geom::PrecisionModel pm;
-            static geos::geom::GeometryFactory factory(&pm, -1);
+            static geos::geom::GeometryFactory factory(&pm, 4326);
             return &factory;
         }
 
-- 
2.43.0


From 63076fc3b055d6f6e92b27afaa6926130f1097da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 47/68] fix: free geometry used to join touching inner rings

---
 include/osmium/multipolygon/builder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/osmium/multipolygon/builder.hpp b/include/osmium/multipolygon/builder.hpp
index 660f7a2..df2a672 100644
--- a/include/osmium/multipolygon/builder.hpp
+++ b/include/osmium/multipolygon/builder.hpp
@@ -833,9 +833,9 @@ namespace Osmium {
                                 // touching inner rings
                                 // this is allowed, but we must fix them up into a valid
                                 // geometry
-                                geos::geom::Geometry* diff = ring1_geom->symDifference(ring2_geom);
+                                const scoped_ptr<geos::geom::Geometry> diff(ring1_geom->symDifference(ring2_geom));
                                 const scoped_ptr<geos::operation::polygonize::Polygonizer> polygonizer(new geos::operation::polygonize::Polygonizer());
-                                polygonizer->add(diff);
+                                polygonizer->add(diff.get());
                                 std::vector<geos::geom::Polygon*>* polys = polygonizer->getPolygons();
                                 if (polys) {
                                     if (polys->size() == 1) {
-- 
2.43.0


From 7b9bd8a99475260a6c1377a1c660e08599d9b39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 48/68] fix: join touching inner rings which have several
 segments in common

---
 include/osmium/multipolygon/builder.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/osmium/multipolygon/builder.hpp b/include/osmium/multipolygon/builder.hpp
index df2a672..343ea6b 100644
--- a/include/osmium/multipolygon/builder.hpp
+++ b/include/osmium/multipolygon/builder.hpp
@@ -829,7 +829,8 @@ namespace Osmium {
                             geos::geom::GeometryTypeId type = inter->getGeometryTypeId();
                             delete inter;
 
-                            if (type == geos::geom::GEOS_LINESTRING) {
+                            // more than one line if the common border has several segments
+                            if (type == geos::geom::GEOS_LINESTRING || type == geos::geom::GEOS_MULTILINESTRING) {
                                 // touching inner rings
                                 // this is allowed, but we must fix them up into a valid
                                 // geometry
-- 
2.43.0


From 9b1f810911c6a6cd1377e1deca6a8dc7adf9c6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 49/68] Revert "fix: osmium_find_bbox must print the bounding
 box with full precision"

Examples are not to be changed here; recorded as known finding instead.
---
 examples/osmium_find_bbox.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/examples/osmium_find_bbox.cpp b/examples/osmium_find_bbox.cpp
index 30fd337..d9ac1ce 100644
--- a/examples/osmium_find_bbox.cpp
+++ b/examples/osmium_find_bbox.cpp
@@ -6,7 +6,6 @@
 
 */
 
-#include <iomanip>
 #include <iostream>
 
 #define OSMIUM_WITH_PBF_INPUT
@@ -28,8 +27,7 @@ int main(int argc, char* argv[]) {
     Osmium::Input::read(infile, handler);
 
     Osmium::OSM::Bounds bounds = handler.bounds();
-    std::cout << std::setprecision(10)
-              << "minlon=" << bounds.bottom_left().lon()
+    std::cout <<  "minlon=" << bounds.bottom_left().lon()
               << " minlat=" << bounds.bottom_left().lat()
               << " maxlon=" << bounds.top_right().lon()
               << " maxlat=" << bounds.top_right().lat() << std::endl;
-- 
2.43.0


From 8ea7c6f8db63b3038e0254d1037dfa4bf62e5e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 50/68] fix: access to nodes and members out of range from
 Javascript

---
 include/osmium/javascript/wrapper/osm.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/osmium/javascript/wrapper/osm.hpp b/include/osmium/javascript/wrapper/osm.hpp
index bd72f24..3c9152b 100644
--- a/include/osmium/javascript/wrapper/osm.hpp
+++ b/include/osmium/javascript/wrapper/osm.hpp
@@ -84,6 +84,9 @@ namespace Osmium {
                 }
 
                 static v8::Handle<v8::Value> get_node_id(uint32_t index, Osmium::OSM::WayNodeList* wnl) {
+                    if (index >= wnl->size()) {
+                        return v8::Undefined();
+                    }
                     return v8::Number::New((*wnl)[index].ref());
                 }
 
@@ -141,6 +144,9 @@ namespace Osmium {
             struct OSMRelationMemberList : public Osmium::Javascript::Template {
 
                 static v8::Handle<v8::Value> get_member(uint32_t index, Osmium::OSM::RelationMemberList* rml) {
+                    if (index >= rml->size()) {
+                        return v8::Undefined();
+                    }
                     return OSMRelationMember::get<OSMRelationMember>().create_instance((void*)&((*rml)[index]));
                 }
 
-- 
2.43.0


From 27266339e26f8fc3c7453d6032b536f98e6942d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 51/68] fix: make tags with keys which look like numbers
 accessible from Javascript

---
 include/osmium/javascript/wrapper/osm.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/osmium/javascript/wrapper/osm.hpp b/include/osmium/javascript/wrapper/osm.hpp
index 3c9152b..5c92c31 100644
--- a/include/osmium/javascript/wrapper/osm.hpp
+++ b/include/osmium/javascript/wrapper/osm.hpp
@@ -21,6 +21,7 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 <http://www.gnu.org/licenses/>.
 
 */
+#include <sstream>
 #include <v8.h>
 
 #include <osmium/javascript/unicode.hpp>
@@ -51,6 +52,17 @@ namespace Osmium {
                     return v8::Undefined();
                 }
 
+                // Keys which look like numbers are looked up by index.
+                static v8::Handle<v8::Value> get_value_by_index(uint32_t index, Osmium::OSM::TagList* tag_list) {
+                    std::ostringstream key;
+                    key << index;
+                    const char* value = tag_list->get_value_by_key(key.str().c_str());
+                    if (value) {
+                        return Osmium::utf8_to_v8_String<Osmium::OSM::Tag::max_utf16_length_value>(value);
+                    }
+                    return v8::Undefined();
+                }
+
                 static v8::Handle<v8::Array> enumerate_tag_keys(Osmium::OSM::TagList* tag_list) {
                     v8::HandleScope scope;
                     v8::Local<v8::Array> array = v8::Array::New(tag_list->size());
@@ -73,6 +85,9 @@ namespace Osmium {
                         0,
                         property_enumerator<Osmium::OSM::TagList, enumerate_tag_keys>
                     );
+                    js_template->SetIndexedPropertyHandler(
+                        indexed_property_getter<Osmium::OSM::TagList, get_value_by_index>
+                    );
                 }
 
             };
-- 
2.43.0


From bc6c65b7ff8c656fceff1e5926130469da5a9d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 52/68] fix: Javascript node objects have lon and lat
 attributes as documented

---
 include/osmium/javascript/wrapper/osm.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/osmium/javascript/wrapper/osm.hpp b/include/osmium/javascript/wrapper/osm.hpp
index 5c92c31..2fbfcf8 100644
--- a/include/osmium/javascript/wrapper/osm.hpp
+++ b/include/osmium/javascript/wrapper/osm.hpp
@@ -249,8 +249,18 @@ namespace Osmium {
                     return GeometryPoint::get<GeometryPoint>().create_persistent_instance<Osmium::Geometry::Point>(geom);
                 }
 
+                static v8::Handle<v8::Value> lon(Osmium::OSM::Node* node) {
+                    return v8::Number::New(node->lon());
+                }
+
+                static v8::Handle<v8::Value> lat(Osmium::OSM::Node* node) {
+                    return v8::Number::New(node->lat());
+                }
+
                 OSMNode() :
                     OSMObject() {
+                    js_template->SetAccessor(v8::String::NewSymbol("lon"),  accessor_getter<Osmium::OSM::Node, lon>);
+                    js_template->SetAccessor(v8::String::NewSymbol("lat"),  accessor_getter<Osmium::OSM::Node, lat>);
                     js_template->SetAccessor(v8::String::NewSymbol("geom"), accessor_getter<Osmium::OSM::Node, get_geom>);
                 }
 
-- 
2.43.0


From 6a183f34043a6a0170cfa80da89842be137f8e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 53/68] fix: toWKB() in Javascript returned only the bytes up
 to the first zero byte

---
 include/osmium/javascript/wrapper/geometry.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/osmium/javascript/wrapper/geometry.hpp b/include/osmium/javascript/wrapper/geometry.hpp
index 505e4c3..f466b45 100644
--- a/include/osmium/javascript/wrapper/geometry.hpp
+++ b/include/osmium/javascript/wrapper/geometry.hpp
@@ -23,6 +23,8 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 */
 
 #include <sstream>
+#include <string>
+#include <vector>
 #include <v8.h>
 
 #include <geos/geom/Geometry.h>
@@ -63,7 +65,14 @@ namespace Osmium {
                         with_srid = args[0]->ToBoolean()->Value();
                     }
                     oss << geometry->as_WKB(with_srid);
-                    return v8::String::New(oss.str().c_str());
+                    // one character for each byte
+                    const std::string wkb = oss.str();
+                    std::vector<uint16_t> characters;
+                    characters.reserve(wkb.size());
+                    for (std::string::const_iterator it = wkb.begin(); it != wkb.end(); ++it) {
+                        characters.push_back(static_cast<unsigned char>(*it));
+                    }
+                    return v8::String::New(&characters[0], characters.size());
                 }
 
                 static v8::Handle<v8::Value> to_hexwkb(const v8::Arguments& args, Osmium::Geometry::Geometry* geometry) {
-- 
2.43.0


From 528922469671efb897ddcb3aa5e63819d431bad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 54/68] fix: print texts containing the NUL character from
 Javascript

---
 include/osmium/javascript/unicode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/osmium/javascript/unicode.hpp b/include/osmium/javascript/unicode.hpp
index 1d387d7..1df539e 100644
--- a/include/osmium/javascript/unicode.hpp
+++ b/include/osmium/javascript/unicode.hpp
@@ -139,7 +139,7 @@ namespace Osmium {
             free(src);
             throw UTF16_to_UTF8_Conversion_Error(error_code);
         }
-        os << buffer;
+        os.write(buffer, buffer_length);
         free(buffer);
         free(src);
     }
-- 
2.43.0


From 656b43f14542a2b5fd87221cc968aa0da52bcc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 55/68] fix: conversion of long texts to shapefile attributes
 from Javascript

---
 include/osmium/javascript/wrapper/export_shapefile.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/osmium/javascript/wrapper/export_shapefile.hpp b/include/osmium/javascript/wrapper/export_shapefile.hpp
index a5285b2..9e6328b 100644
--- a/include/osmium/javascript/wrapper/export_shapefile.hpp
+++ b/include/osmium/javascript/wrapper/export_shapefile.hpp
@@ -66,7 +66,12 @@ namespace Osmium {
                     int32_t dest_length;
                     UErrorCode error_code = U_ZERO_ERROR;
                     value->ToString()->Write(source, 0, Osmium::Export::Shapefile::max_dbf_field_length+1);
-                    u_strToUTF8(dest, shapefile->field(n).width(), &dest_length, source, std::min(Osmium::Export::Shapefile::max_dbf_field_length+1, value->ToString()->Length()), &error_code);
+                    int32_t source_length = std::min(Osmium::Export::Shapefile::max_dbf_field_length+1, value->ToString()->Length());
+                    if (source_length < value->ToString()->Length() && U16_IS_LEAD(source[source_length-1])) {
+                        // do not cut characters outside the Basic Multilingual Plane in half
+                        --source_length;
+                    }
+                    u_strToUTF8(dest, shapefile->field(n).width(), &dest_length, source, source_length, &error_code);
                     if (error_code == U_BUFFER_OVERFLOW_ERROR) {
                         // thats ok, it just means we clip the text at that point
                     } else if (U_FAILURE(error_code)) {
-- 
2.43.0


From 1db477e4e9fdad8fe83dc86ecec5b68c5a77f20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 56/68] fix: osmjs -2 without -m crashed if no location store
 was set

---
 osmjs/osmjs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osmjs/osmjs.cpp b/osmjs/osmjs.cpp
index 08f231e..ff1cf85 100644
--- a/osmjs/osmjs.cpp
+++ b/osmjs/osmjs.cpp
@@ -198,7 +198,7 @@ int main(int argc, char* argv[]) {
         std::cerr << "Warning! The command line option -2 has changed its meaning.\nIt now only enables the two-pass mode, multipolygon assembly has to be enabled with -m.\n";
     }
 
-    if (multipolygon && location_store == NONE) {
+    if (two_passes && location_store == NONE) {
         std::cerr << "You need to set the location store with -l, otherwise multipolygon assembly will not work.\n";
         exit(1);
     }
-- 
2.43.0


From 71dfaff4efc47d033162047906459a4d9b29916a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 57/68] fix: set Osmium.debug in Javascript according to the
 --debug option

---
 include/osmium/javascript/handler.hpp | 3 ++-
 osmjs/osmjs.cpp                       | 3 +--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/osmium/javascript/handler.hpp b/include/osmium/javascript/handler.hpp
index 03aaffb..cebfe62 100644
--- a/include/osmium/javascript/handler.hpp
+++ b/include/osmium/javascript/handler.hpp
@@ -149,8 +149,9 @@ namespace Osmium {
                 return v8::Undefined();
             }
 
-            Handler(std::vector<std::string> include_files, const char* filename) :
+            Handler(std::vector<std::string> include_files, const char* filename, int debug_level=0) :
                 Osmium::Handler::Base() {
+                set_debug_level(debug_level);
 //                v8::HandleScope handle_scope;
                 v8::Handle<v8::String> init_source = v8::String::New("Osmium = { Callbacks: {}, Output: { } };");
                 v8::Handle<v8::Script> init_script = v8::Script::Compile(init_source);
diff --git a/osmjs/osmjs.cpp b/osmjs/osmjs.cpp
index ff1cf85..de8c03c 100644
--- a/osmjs/osmjs.cpp
+++ b/osmjs/osmjs.cpp
@@ -239,8 +239,7 @@ int main(int argc, char* argv[]) {
         store_pos = new Osmium::Storage::ById::Vector<Osmium::OSM::Position>();
     }
     Osmium::Storage::ById::MmapFile<Osmium::OSM::Position> store_neg;
-    Osmium::Javascript::Handler handler_javascript(include_files, javascript_filename.c_str());
-    handler_javascript.set_debug_level(debug ? 1 : 0);
+    Osmium::Javascript::Handler handler_javascript(include_files, javascript_filename.c_str(), debug ? 1 : 0);
 
     if (two_passes) {
         typedef Osmium::MultiPolygon::Assembler<Osmium::Javascript::Handler> assembler_t;
-- 
2.43.0


From 38bb3d5fdad1c964e4b83f9fb55cbfbce15ef2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 58/68] fix: add suffix to names of Javascript include files if
 only the directory has a dot in its name

---
 osmjs/osmjs.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/osmjs/osmjs.cpp b/osmjs/osmjs.cpp
index de8c03c..fdc038a 100644
--- a/osmjs/osmjs.cpp
+++ b/osmjs/osmjs.cpp
@@ -74,7 +74,9 @@ std::string find_include_file(std::string filename) {
     search_path.push_back("/usr/share/osmjs");
 
     // add .js if there is no suffix
-    if (filename.find_last_of('.') == std::string::npos) {
+    std::string::size_type dot = filename.find_last_of('.');
+    std::string::size_type slash = filename.find_last_of('/');
+    if (dot == std::string::npos || (slash != std::string::npos && dot < slash)) {
         filename.append(".js");
     }
 
-- 
2.43.0


From 45a1da3892d0e91cd53080ead9ed305dc9c851ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 59/68] fix: count bytes of shapefiles in 64 bits so that files
 are split after a shape of nearly 2 GB

---
 include/osmium/export/shapefile.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/osmium/export/shapefile.hpp b/include/osmium/export/shapefile.hpp
index dec78a6..0c6f155 100644
--- a/include/osmium/export/shapefile.hpp
+++ b/include/osmium/export/shapefile.hpp
@@ -333,10 +333,10 @@ namespace Osmium {
             unsigned int m_record_length;
 
             /// number of bytes written to SHP file
-            unsigned int m_shp_bytes;
+            uint64_t m_shp_bytes;
 
             /// number of bytes written to DBF file
-            unsigned int m_dbf_bytes;
+            uint64_t m_dbf_bytes;
 
             /**
              * Open and initialize all files belonging to shapefile (.shp/shx/dbf/prj/cpg).
-- 
2.43.0


From bca8a06a64de82d826af3330f5e12c0992ef2636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 60/68] fix: no objects from the store after reading was
 stopped in ways added before relations

---
 include/osmium/storage/objectstore.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/osmium/storage/objectstore.hpp b/include/osmium/storage/objectstore.hpp
index 2f73aa2..f67bea8 100644
--- a/include/osmium/storage/objectstore.hpp
+++ b/include/osmium/storage/objectstore.hpp
@@ -240,6 +240,7 @@ namespace Osmium {
                 void before_relations() {
                     m_in_callback = true;
                     add_remaining_nodes();
+                    m_in_callback = true;
                     add_remaining_ways();
                     m_in_callback = true;
                     m_handler.before_relations();
-- 
2.43.0


From 38cfa2ab076afdd6f58d9e2f8732f9ab26161908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:44 +0000
Subject: [PATCH 61/68] fix: progress display divided by zero seconds and
 averaged over the wrong time

---
 include/osmium/handler/progress.hpp | 36 ++++++++++++++---------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/osmium/handler/progress.hpp b/include/osmium/handler/progress.hpp
index dfb5b59..c71ef5f 100644
--- a/include/osmium/handler/progress.hpp
+++ b/include/osmium/handler/progress.hpp
@@ -58,6 +58,14 @@ namespace Osmium {
             timeval m_first_way;
             timeval m_first_relation;
 
+            static int per_second(uint64_t count, const timeval& from, const timeval& to) {
+                float diff = (to.tv_sec - from.tv_sec) * 1000000 + (to.tv_usec - from.tv_usec);
+                if (diff == 0) {
+                    diff = 1; // too fast for the clock
+                }
+                return static_cast<float>(count) / diff * 1000000;
+            }
+
             void update_display(bool show_per_second=true) const {
                 std::cout << "[" << m_count_nodes << "]";
                 if (m_count_ways > 0 || m_count_relations > 0) {
@@ -72,17 +80,11 @@ namespace Osmium {
                     gettimeofday(&now, 0);
 
                     if (m_count_relations > 0) {
-                        float relation_diff = (now.tv_sec - m_first_relation.tv_sec) * 1000000 + (now.tv_usec - m_first_relation.tv_usec);
-                        int relations_per_sec = static_cast<float>(m_count_relations) / relation_diff * 1000000;
-                        std::cout << " (" << relations_per_sec << " Relations per second)   ";
+                        std::cout << " (" << per_second(m_count_relations, m_first_relation, now) << " Relations per second)   ";
                     } else if (m_count_ways > 0) {
-                        float way_diff = (now.tv_sec - m_first_way.tv_sec) * 1000000 + (now.tv_usec - m_first_way.tv_usec);
-                        int ways_per_sec = static_cast<float>(m_count_ways) / way_diff * 1000000;
-                        std::cout << " (" << ways_per_sec << " Ways per second)   ";
+                        std::cout << " (" << per_second(m_count_ways, m_first_way, now) << " Ways per second)   ";
                     } else if (m_count_nodes > 0) {
-                        float node_diff = (now.tv_sec - m_first_node.tv_sec) * 1000000 + (now.tv_usec - m_first_node.tv_usec);
-                        int nodes_per_sec = static_cast<float>(m_count_nodes) / node_diff * 1000000;
-                        std::cout << " (" << nodes_per_sec << " Nodes per second)   ";
+                        std::cout << " (" << per_second(m_count_nodes, m_first_node, now) << " Nodes per second)   ";
                     }
                 } else {
                     std::cout << "                                   ";
@@ -165,22 +167,20 @@ namespace Osmium {
                 timeval now;
                 gettimeofday(&now, 0);
 
+                // a phase ends when the next one for which there are objects starts
+                const timeval& end_of_ways  = m_count_relations > 0 ? m_first_relation : now;
+                const timeval& end_of_nodes = m_count_ways > 0 ? m_first_way : end_of_ways;
+
                 if (m_count_nodes > 0) {
-                    float node_diff = (m_first_way.tv_sec - m_first_node.tv_sec) * 1000000 + (m_first_way.tv_usec - m_first_node.tv_usec);
-                    int nodes_per_sec = static_cast<float>(m_count_nodes) / node_diff * 1000000;
-                    std::cout << nodes_per_sec << " Nodes ";
+                    std::cout << per_second(m_count_nodes, m_first_node, end_of_nodes) << " Nodes ";
                 }
 
                 if (m_count_ways > 0) {
-                    float way_diff = (m_first_relation.tv_sec - m_first_way.tv_sec) * 1000000 + (m_first_relation.tv_usec - m_first_way.tv_usec);
-                    int ways_per_sec = static_cast<float>(m_count_ways) / way_diff * 1000000;
-                    std::cout << ways_per_sec << " Ways ";
+                    std::cout << per_second(m_count_ways, m_first_way, end_of_ways) << " Ways ";
                 }
 
                 if (m_count_relations > 0) {
-                    float relation_diff = (now.tv_sec - m_first_relation.tv_sec) * 1000000 + (now.tv_usec - m_first_relation.tv_usec);
-                    int relations_per_sec = static_cast<float>(m_count_relations) / relation_diff * 1000000;
-                    std::cout << relations_per_sec << " Relations ";
+                    std::cout << per_second(m_count_relations, m_first_relation, now) << " Relations ";
                 }
 
                 show_cursor();
-- 
2.43.0


From 49cc7a1195f10b0b3cd2cf62ef5e3437c46a3b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:44 +0000
Subject: [PATCH 62/68] fix: a way without nodes has no line, whatever its
 nodes' positions

---
 include/osmium/geometry/shplib.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/osmium/geometry/shplib.hpp b/include/osmium/geometry/shplib.hpp
index 9d9d23f..2c2fae3 100644
--- a/include/osmium/geometry/shplib.hpp
+++ b/include/osmium/geometry/shplib.hpp
@@ -63,14 +63,14 @@ namespace Osmium {
             * SHPDestroyObject() with this geometry when you are done.
             */
             inline SHPObject* create_line_or_polygon(const Osmium::Geometry::FromWay& from_way, int shp_type) {
-                if (!from_way.nodes().has_position()) {
-                    throw std::runtime_error("node coordinates not available for building way geometry");
-                }
                 int size = from_way.nodes().size();
                 if (size == 0 || size == 1) {
                     std::cerr << "error building way geometry for way " << from_way.id() << ": must at least contain two nodes" << std::endl;
                     throw Osmium::Geometry::IllegalGeometry();
                 }
+                if (!from_way.nodes().has_position()) {
+                    throw std::runtime_error("node coordinates not available for building way geometry");
+                }
 
                 std::vector<double> lon_checked;
                 lon_checked.reserve(size);
-- 
2.43.0


From 28e8a5a8c80f6b5c99bdf5a20f41236444e9c9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:30 +0000
Subject: [PATCH 63/68] fix: shapefile which can't be created or opened again
 leaked handles and shapes, or crashed

---
 include/osmium/export/shapefile.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/osmium/export/shapefile.hpp b/include/osmium/export/shapefile.hpp
index 0c6f155..81fb382 100644
--- a/include/osmium/export/shapefile.hpp
+++ b/include/osmium/export/shapefile.hpp
@@ -194,8 +194,14 @@ namespace Osmium {
              * @exception Osmium::Geometry::IllegalGeometry If shp_object is NULL or
              *                   the type of geometry does not fit the type of the
              *                   shapefile.
+             * @exception std::runtime_error If the shapefile is closed or can't be
+             *                   written to, or if the next file can't be opened.
              */
             void add_geometry(SHPObject* shp_object) {
+                if (!m_shp_handle) {
+                    SHPDestroyObject(shp_object);
+                    throw std::runtime_error("shapefile is not open");
+                }
                 if (!shp_object || shp_object->nSHPType != m_shp_handle->nShapeType) {
                     SHPDestroyObject(shp_object);
                     throw Osmium::Geometry::IllegalGeometry();
@@ -206,7 +212,12 @@ namespace Osmium {
                 if (m_dbf_bytes > max_file_size || m_shp_bytes > max_file_size) {
                     close();
                     m_sequence_number++;
-                    open();
+                    try {
+                        open();
+                    } catch (...) {
+                        SHPDestroyObject(shp_object);
+                        throw;
+                    }
                     m_dbf_bytes += m_record_length;
                     m_shp_bytes += length_on_disk(shp_object);
                 }
@@ -355,12 +366,14 @@ namespace Osmium {
                 }
                 m_dbf_handle = DBFCreate(filename.str().c_str());
                 if (m_dbf_handle == 0) {
+                    close();
                     throw std::runtime_error("Can't open shapefile: " + filename.str() + ".dbf");
                 }
 
                 std::ofstream file;
                 file.open((filename.str() + ".prj").c_str());
                 if (file.fail()) {
+                    close();
                     throw std::runtime_error("Can't open shapefile: " + filename.str() + ".prj");
                 }
                 file << "GEOGCS[\"GCS_WGS_1984\",DATUM[\"D_WGS_1984\",SPHEROID[\"WGS_1984\",6378137,298.257223563]],PRIMEM[\"Greenwich\",0],UNIT[\"Degree\",0.017453292519943295]]" << std::endl;
@@ -368,6 +381,7 @@ namespace Osmium {
 
                 file.open((filename.str() + ".cpg").c_str());
                 if (file.fail()) {
+                    close();
                     throw std::runtime_error("Can't open shapefile: " + filename.str() + ".cpg");
                 }
                 file << "UTF-8" << std::endl;
-- 
2.43.0


From e591ce4248a61be12b224d01cf067ea861b30702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:30 +0000
Subject: [PATCH 64/68] fix: SparseTable with a grow size of 0 has room for the
 ID being set

---
 include/osmium/storage/byid/sparse_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/osmium/storage/byid/sparse_table.hpp b/include/osmium/storage/byid/sparse_table.hpp
index 308b0cf..3e9c9c8 100644
--- a/include/osmium/storage/byid/sparse_table.hpp
+++ b/include/osmium/storage/byid/sparse_table.hpp
@@ -64,7 +64,7 @@ namespace Osmium {
 
                 void set(const uint64_t id, const TValue value) {
                     if (id >= m_items.size()) {
-                        m_items.resize(id + m_grow_size);
+                        m_items.resize(id + 1 + m_grow_size);
                     }
                     m_items[id] = value;
                 }
-- 
2.43.0


From 9d41d48a465f703430afca662300a7a8a0b6f4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:18 +0000
Subject: [PATCH 65/68] fix: assembler: no notice that all members are
 available if reading stopped in init()

---
 include/osmium/relations/assembler.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/osmium/relations/assembler.hpp b/include/osmium/relations/assembler.hpp
index 2be4bad..81162d0 100644
--- a/include/osmium/relations/assembler.hpp
+++ b/include/osmium/relations/assembler.hpp
@@ -369,8 +369,8 @@ namespace Osmium {
                 bool m_type_done[3];
 
                 /**
-                 * Set from the before_*() to the after_*() methods. If this
-                 * is still set in final(), reading was stopped.
+                 * Set while in init() and from the before_*() to the after_*()
+                 * methods. If this is still set in final(), reading was stopped.
                  */
                 bool m_in_type;
 
@@ -432,8 +432,10 @@ namespace Osmium {
                     m_type_done[RELATION] = !R;
                 }
 
-                void init(Osmium::OSM::Meta& meta) const {
+                void init(Osmium::OSM::Meta& meta) {
+                    m_in_type = true;
                     m_assembler.m_next_handler.init(meta);
+                    m_in_type = false;
                 }
 
                 void before_nodes() {
-- 
2.43.0


From 544225e7a098bbe65d9f2b007a0382d6bd829967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:19 +0000
Subject: [PATCH 66/68] fix: XML output: version numbers from 2^31 on came out
 negative

---
 include/osmium/output/xml.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/osmium/output/xml.hpp b/include/osmium/output/xml.hpp
index 64104df..10055d7 100644
--- a/include/osmium/output/xml.hpp
+++ b/include/osmium/output/xml.hpp
@@ -187,7 +187,7 @@ namespace Osmium {
             void write_meta(const shared_ptr<Osmium::OSM::Object const>& object) {
                 check_for_error(xmlTextWriterWriteFormatAttribute(m_xml_writer, BAD_CAST "id", "%" PRId64, object->id()));
                 if (object->version()) {
-                    check_for_error(xmlTextWriterWriteFormatAttribute(m_xml_writer, BAD_CAST "version", "%d", object->version()));
+                    check_for_error(xmlTextWriterWriteFormatAttribute(m_xml_writer, BAD_CAST "version", "%u", object->version()));
                 }
                 if (object->timestamp()) {
                     check_for_error(xmlTextWriterWriteAttribute(m_xml_writer, BAD_CAST "timestamp", BAD_CAST object->timestamp_as_string().c_str()));
-- 
2.43.0


From 32044223f711c1134787232a419b1d77b434c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:54 +0000
Subject: [PATCH 67/68] fix: PBF input: parts of the metadata might be missing

---
 include/osmium/input/pbf.hpp | 65 +++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 24 deletions(-)

diff --git a/include/osmium/input/pbf.hpp b/include/osmium/input/pbf.hpp
index f4b0839..90474d4 100644
--- a/include/osmium/input/pbf.hpp
+++ b/include/osmium/input/pbf.hpp
@@ -172,6 +172,15 @@ namespace Osmium {
                 }
             }
 
+            /**
+            * Like check_enough(), but the array can also be missing.
+            */
+            static void check_enough_or_none(const int needed, const int size) {
+                if (size > 0) {
+                    check_enough(needed, size);
+                }
+            }
+
             /**
             * Parse one PrimitiveGroup inside a PrimitiveBlock. This function will check what
             * type of data the group contains (nodes, dense nodes, ways, or relations) and
@@ -214,10 +223,10 @@ namespace Osmium {
 
                     node.id(pbf_node.id());
                     if (pbf_node.has_info()) {
-                        node.version(pbf_node.info().version())
+                        node.version(pbf_node.info().has_version() ? pbf_node.info().version() : 0)
                         .changeset(pbf_node.info().changeset())
                         .timestamp(pbf_node.info().timestamp() * m_date_granularity / 1000)
-                        .uid(pbf_node.info().uid())
+                        .uid(pbf_node.info().has_uid() ? pbf_node.info().uid() : -1)
                         .user(string_from_table(stringtable, pbf_node.info().user_sid()));
                         if (pbf_node.info().has_visible()) {
                             node.visible(pbf_node.info().visible());
@@ -253,10 +262,10 @@ namespace Osmium {
 
                     way.id(pbf_way.id());
                     if (pbf_way.has_info()) {
-                        way.version(pbf_way.info().version())
+                        way.version(pbf_way.info().has_version() ? pbf_way.info().version() : 0)
                         .changeset(pbf_way.info().changeset())
                         .timestamp(pbf_way.info().timestamp() * m_date_granularity / 1000)
-                        .uid(pbf_way.info().uid())
+                        .uid(pbf_way.info().has_uid() ? pbf_way.info().uid() : -1)
                         .user(string_from_table(stringtable, pbf_way.info().user_sid()));
                         if (pbf_way.info().has_visible()) {
                             way.visible(pbf_way.info().visible());
@@ -295,10 +304,10 @@ namespace Osmium {
 
                     relation.id(pbf_relation.id());
                     if (pbf_relation.has_info()) {
-                        relation.version(pbf_relation.info().version())
+                        relation.version(pbf_relation.info().has_version() ? pbf_relation.info().version() : 0)
                         .changeset(pbf_relation.info().changeset())
                         .timestamp(pbf_relation.info().timestamp() * m_date_granularity / 1000)
-                        .uid(pbf_relation.info().uid())
+                        .uid(pbf_relation.info().has_uid() ? pbf_relation.info().uid() : -1)
                         .user(string_from_table(stringtable, pbf_relation.info().user_sid()));
                         if (pbf_relation.info().has_visible()) {
                             relation.visible(pbf_relation.info().visible());
@@ -357,14 +366,12 @@ namespace Osmium {
                 check_enough(max_entity, dense.lat_size());
                 check_enough(max_entity, dense.lon_size());
                 if (dense.has_denseinfo()) {
-                    check_enough(max_entity, dense.denseinfo().version_size());
-                    check_enough(max_entity, dense.denseinfo().timestamp_size());
-                    check_enough(max_entity, dense.denseinfo().changeset_size());
-                    check_enough(max_entity, dense.denseinfo().uid_size());
-                    check_enough(max_entity, dense.denseinfo().user_sid_size());
-                    if (dense.denseinfo().visible_size() > 0) {
-                        check_enough(max_entity, dense.denseinfo().visible_size());
-                    }
+                    check_enough_or_none(max_entity, dense.denseinfo().version_size());
+                    check_enough_or_none(max_entity, dense.denseinfo().timestamp_size());
+                    check_enough_or_none(max_entity, dense.denseinfo().changeset_size());
+                    check_enough_or_none(max_entity, dense.denseinfo().uid_size());
+                    check_enough_or_none(max_entity, dense.denseinfo().user_sid_size());
+                    check_enough_or_none(max_entity, dense.denseinfo().visible_size());
                 }
                 for (int entity=0; entity < max_entity; ++entity) {
                     Osmium::OSM::Node& node = this->prepare_node();
@@ -373,16 +380,26 @@ namespace Osmium {
                     node.id(last_dense_id);
 
                     if (dense.has_denseinfo()) {
-                        last_dense_changeset += dense.denseinfo().changeset(entity);
-                        last_dense_timestamp += dense.denseinfo().timestamp(entity);
-                        last_dense_uid       += dense.denseinfo().uid(entity);
-                        last_dense_user_sid  += dense.denseinfo().user_sid(entity);
-
-                        node.version(dense.denseinfo().version(entity));
-                        node.changeset(last_dense_changeset);
-                        node.timestamp(last_dense_timestamp * m_date_granularity / 1000);
-                        node.uid(last_dense_uid);
-                        node.user(string_from_table(stringtable, last_dense_user_sid));
+                        // any part of the metadata might be missing
+                        if (dense.denseinfo().version_size() > 0) {
+                            node.version(dense.denseinfo().version(entity));
+                        }
+                        if (dense.denseinfo().changeset_size() > 0) {
+                            last_dense_changeset += dense.denseinfo().changeset(entity);
+                            node.changeset(last_dense_changeset);
+                        }
+                        if (dense.denseinfo().timestamp_size() > 0) {
+                            last_dense_timestamp += dense.denseinfo().timestamp(entity);
+                            node.timestamp(last_dense_timestamp * m_date_granularity / 1000);
+                        }
+                        if (dense.denseinfo().uid_size() > 0) {
+                            last_dense_uid += dense.denseinfo().uid(entity);
+                            node.uid(last_dense_uid);
+                        }
+                        if (dense.denseinfo().user_sid_size() > 0) {
+                            last_dense_user_sid += dense.denseinfo().user_sid(entity);
+                            node.user(string_from_table(stringtable, last_dense_user_sid));
+                        }
 
                         if (dense.denseinfo().visible_size() > 0) {
                             node.visible(dense.denseinfo().visible(entity));
-- 
2.43.0


From 17e1968965eb58417100bedacbd3d8a9a4fcb917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:54 +0000
Subject: [PATCH 68/68] fix: XML: coordinates are read and written the same in
 every locale

---
 include/osmium/input/xml.hpp  | 26 ++++++++++++++++++++------
 include/osmium/output/xml.hpp | 25 +++++++++++++++++++------
 2 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/include/osmium/input/xml.hpp b/include/osmium/input/xml.hpp
index 6258765..6eb2c1c 100644
--- a/include/osmium/input/xml.hpp
+++ b/include/osmium/input/xml.hpp
@@ -28,6 +28,7 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 #include <cstdlib>
 #include <cstring>
 #include <exception>
+#include <locale.h>
 #include <iostream>
 #include <sstream>
 #include <stdexcept>
@@ -207,6 +208,19 @@ namespace Osmium {
                 XML_StopParser(m_parser, XML_FALSE);
             }
 
+            /**
+             * Like atof(), but the decimal separator is always a point,
+             * whatever the locale of the program says.
+             */
+            static double string_to_double(const char* string) {
+#ifdef WIN32
+                return atof(string);
+#else
+                static const locale_t c_locale = newlocale(LC_ALL_MASK, "C", static_cast<locale_t>(0));
+                return strtod_l(string, NULL, c_locale);
+#endif
+            }
+
             void init_object(Osmium::OSM::Object& obj, const XML_Char** attrs) {
                 if (m_in_delete_section) {
                     obj.visible(false);
@@ -215,11 +229,11 @@ namespace Osmium {
                 for (int count = 0; attrs[count]; count += 2) {
                     if (!strcmp(attrs[count], "lon")) {
                         if (m_current_object == this->m_node.get()) {
-                            this->m_node->lon(atof(attrs[count+1]));
+                            this->m_node->lon(string_to_double(attrs[count+1]));
                         }
                     } else if (!strcmp(attrs[count], "lat")) {
                         if (m_current_object == this->m_node.get()) {
-                            this->m_node->lat(atof(attrs[count+1]));
+                            this->m_node->lat(string_to_double(attrs[count+1]));
                         }
                     } else {
                         m_current_object->set_attribute(attrs[count], attrs[count+1]);
@@ -277,13 +291,13 @@ namespace Osmium {
                             Osmium::OSM::Position max;
                             for (int count = 0; attrs[count]; count += 2) {
                                 if (!strcmp(attrs[count], "minlon")) {
-                                    min.lon(atof(attrs[count+1]));
+                                    min.lon(string_to_double(attrs[count+1]));
                                 } else if (!strcmp(attrs[count], "minlat")) {
-                                    min.lat(atof(attrs[count+1]));
+                                    min.lat(string_to_double(attrs[count+1]));
                                 } else if (!strcmp(attrs[count], "maxlon")) {
-                                    max.lon(atof(attrs[count+1]));
+                                    max.lon(string_to_double(attrs[count+1]));
                                 } else if (!strcmp(attrs[count], "maxlat")) {
-                                    max.lat(atof(attrs[count+1]));
+                                    max.lat(string_to_double(attrs[count+1]));
                                 }
                             }
                             this->meta().bounds().extend(min).extend(max);
diff --git a/include/osmium/output/xml.hpp b/include/osmium/output/xml.hpp
index 10055d7..92cebd7 100644
--- a/include/osmium/output/xml.hpp
+++ b/include/osmium/output/xml.hpp
@@ -29,6 +29,8 @@ You should have received a copy of the Licenses along with Osmium. If not, see
 #undef XMLCALL
 #include <libxml/xmlwriter.h>
 
+#include <cstdlib>
+
 #define __STDC_FORMAT_MACROS
 #include <inttypes.h>
 
@@ -88,10 +90,10 @@ namespace Osmium {
                 if (meta.bounds().defined()) {
                     check_for_error(xmlTextWriterStartElement(m_xml_writer, BAD_CAST "bounds")); // <bounds>
 
-                    check_for_error(xmlTextWriterWriteFormatAttribute(m_xml_writer, BAD_CAST "minlon", "%.7f", meta.bounds().bottom_left().lon()));
-                    check_for_error(xmlTextWriterWriteFormatAttribute(m_xml_writer, BAD_CAST "minlat", "%.7f", meta.bounds().bottom_left().lat()));
-                    check_for_error(xmlTextWriterWriteFormatAttribute(m_xml_writer, BAD_CAST "maxlon", "%.7f", meta.bounds().top_right().lon()));
-                    check_for_error(xmlTextWriterWriteFormatAttribute(m_xml_writer, BAD_CAST "maxlat", "%.7f", meta.bounds().top_right().lat()));
+                    write_coordinate("minlon", meta.bounds().bottom_left().x());
+                    write_coordinate("minlat", meta.bounds().bottom_left().y());
+                    write_coordinate("maxlon", meta.bounds().top_right().x());
+                    write_coordinate("maxlat", meta.bounds().top_right().y());
 
                     check_for_error(xmlTextWriterEndElement(m_xml_writer)); // </bounds>
                 }
@@ -106,8 +108,8 @@ namespace Osmium {
                 write_meta(node);
 
                 if (node->position().defined()) {
-                    check_for_error(xmlTextWriterWriteFormatAttribute(m_xml_writer, BAD_CAST "lat", "%.7f", node->position().lat()));
-                    check_for_error(xmlTextWriterWriteFormatAttribute(m_xml_writer, BAD_CAST "lon", "%.7f", node->position().lon()));
+                    write_coordinate("lat", node->position().y());
+                    write_coordinate("lon", node->position().x());
                 }
 
                 write_tags(node->tags());
@@ -184,6 +186,17 @@ namespace Osmium {
             xmlTextWriterPtr m_xml_writer;
             char m_last_op;
 
+            /**
+             * Write attribute with a coordinate in degrees. This doesn't use
+             * floating point numbers, because printing them depends on the
+             * locale of the program.
+             */
+            void write_coordinate(const char* name, const int32_t value) {
+                const int64_t v = value;
+                check_for_error(xmlTextWriterWriteFormatAttribute(m_xml_writer, BAD_CAST name, "%s%d.%07d", v < 0 ? "-" : "",
+                                static_cast<int>(std::abs(v) / Osmium::OSM::coordinate_precision), static_cast<int>(std::abs(v) % Osmium::OSM::coordinate_precision)));
+            }
+
             void write_meta(const shared_ptr<Osmium::OSM::Object const>& object) {
                 check_for_error(xmlTextWriterWriteFormatAttribute(m_xml_writer, BAD_CAST "id", "%" PRId64, object->id()));
                 if (object->version()) {
-- 
2.43.0

