From 9c9d92320596c6ad951600365a5dc714ab3487d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:57 +0000
Subject: [PATCH 01/36] fix: files in directories without package.moc or below
 an empty package.mo decrypt exactly

---
 src/decryptors/default/src/mlle_cr_decrypt.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index 2e24f34..a60656c 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -151,12 +151,16 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
     if (error) {
         /* assume that no file exists; read mask from parent */
         ret = mlle_demask_key(context, path, key);
+        if (ret > 0) {
+            /* that file does not exist: this file carries no key mask of its own */
+            ret = 0;
+        }
     }
     else {
         out_buffer = malloc(file_size);
         if (file_buffer && out_buffer) {
             int ret_code = mlle_cr_decrypt(context, path, file_buffer, file_size, out_buffer);
-            if (ret_code > 0) {
+            if (ret_code >= 0) {
                 /* key mask is now in the hash but it's also the tail in the outbuffer */
                 for (i = 0; i < MLLE_CR_KEY_LEN; ++i) {
                     key[i] = key[i] ^ out_buffer[ret_code + i];
@@ -290,6 +294,9 @@ int mlle_cr_decrypt(
 #ifndef DISABLE_DEMASK_KEY
     if (context && rel_file_path) {
         restore_mask_flag = mlle_demask_key(context, rel_file_path, MLLE_CR_KEY);
+        if (restore_mask_flag < 0) {
+            goto error;
+        }
     }
 #endif
     if (!in) return 0;
-- 
2.43.0


From 7b6850816b6874f536a09d39a6544420e9a51649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:44 +0000
Subject: [PATCH 02/36] fix: decrypting a truncated file or a failing parent
 reports an error instead of reading out of bounds

---
 src/decryptors/default/src/mlle_cr_decrypt.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index a60656c..a534ff2 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -299,7 +299,12 @@ int mlle_cr_decrypt(
         }
     }
 #endif
-    if (!in) return 0;
+    if (!in) {
+        res = 0;
+        goto error;
+    }
+    if (in_len < iv_len + mac_len)
+        goto error;
 
     if (!EVP_DecryptInit_ex(c_ctx, cipher, NULL, MLLE_CR_KEY, iv_in))
         goto error;
@@ -330,6 +335,8 @@ int mlle_cr_decrypt(
 #ifndef DISABLE_DEMASK_KEY
     /* check if this is a package.moc file and save the key into cache */
     if (restore_mask_flag) {
+        if (out_len < MLLE_CR_KEY_LEN)
+            goto error;
         out_len -= MLLE_CR_KEY_LEN; /* take out key length from the data sent back*/
         if (mlle_store_keymask(context, rel_file_path, out + out_len) < 0)
             goto error;
-- 
2.43.0


From 618e83dcce90c611a36f1df8663d1a02c0f35bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:57 +0000
Subject: [PATCH 03/36] fix: a failed or ended LVE leaves no descriptors behind
 and neither hangs nor kills the tool

---
 src/tool/mlle_spawn_posix.c | 49 +++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/src/tool/mlle_spawn_posix.c b/src/tool/mlle_spawn_posix.c
index 3046735..569366e 100644
--- a/src/tool/mlle_spawn_posix.c
+++ b/src/tool/mlle_spawn_posix.c
@@ -20,6 +20,8 @@
 #include <stdio.h>
 #include <sys/types.h>
 #include <unistd.h>
+#include <fcntl.h>
+#include <signal.h>
 #include <errno.h>
 #include <string.h>
 #include "mlle_types.h"
@@ -27,6 +29,13 @@
 #include "mlle_spawn.h"
 
 
+/* Close both ends of a pipe. */
+static void close_pipe(int pipe_fd[2])
+{
+    close(pipe_fd[PIPE_READ_INDEX]);
+    close(pipe_fd[PIPE_WRITE_INDEX]);
+}
+
 /********************************************************************
  * Setup pipes and start up connection to LVE (server) on Linux.
  * 
@@ -45,6 +54,8 @@ mlle_spawn(const char *exec_name,
     int child_to_parent_pipe_fd[2] = { -1, -1 };
     int status = 0;
     struct mlle_connections *connections = NULL;
+    struct sigaction sigpipe_action;
+    int ignore_sigpipe = 0;
 
     status = access(exec_name, F_OK);
     if (status == -1) {
@@ -66,13 +77,37 @@ mlle_spawn(const char *exec_name,
     status = pipe(child_to_parent_pipe_fd);
     if (status == -1) {
         mlle_error_set_literal(error, 1, 1, "pipe() failed.");
+        close_pipe(parent_to_child_pipe_fd);
         return NULL;
     }
 
+    connections = calloc(1, sizeof(*connections));
+    if (connections == NULL) {
+        mlle_error_set_literal(error, 1, 1, "Out of memory.");
+        close_pipe(parent_to_child_pipe_fd);
+        close_pipe(child_to_parent_pipe_fd);
+        return NULL;
+    }
+
+    /* Our ends must not leak into other processes the tool starts, or the
+       LVE would not see end of file when we close the connection. */
+    fcntl(parent_to_child_pipe_fd[PIPE_WRITE_INDEX], F_SETFD, FD_CLOEXEC);
+    fcntl(child_to_parent_pipe_fd[PIPE_READ_INDEX], F_SETFD, FD_CLOEXEC);
+
+    /* Writing to an LVE that has ended must give an error, not end the tool. */
+    if (sigaction(SIGPIPE, NULL, &sigpipe_action) == 0
+        && sigpipe_action.sa_handler == SIG_DFL) {
+        ignore_sigpipe = 1;
+        signal(SIGPIPE, SIG_IGN);
+    }
+
     child_pid = fork();
     switch (child_pid) {
     case -1:
         mlle_error_set_literal(error, 1, 1, "fork() failed.");
+        close_pipe(parent_to_child_pipe_fd);
+        close_pipe(child_to_parent_pipe_fd);
+        free(connections);
         return NULL;
 
     case 0:
@@ -92,6 +127,10 @@ mlle_spawn(const char *exec_name,
         }
         close(child_to_parent_pipe_fd[PIPE_WRITE_INDEX]);
 
+        if (ignore_sigpipe) {
+            signal(SIGPIPE, SIG_DFL);
+        }
+
         execl(exec_name, exec_name, (char *) NULL);
         fprintf(stderr, "execl() failed for %s. Error: %s\n", exec_name, strerror(errno));
         _exit(4);
@@ -99,13 +138,9 @@ mlle_spawn(const char *exec_name,
 
     default:
         close(parent_to_child_pipe_fd[PIPE_READ_INDEX]);
-        connections = calloc(1, sizeof(*connections));
-        if (connections != NULL) {
-            connections->fd_to_child = parent_to_child_pipe_fd[PIPE_WRITE_INDEX];
-            connections->fd_from_child = child_to_parent_pipe_fd[PIPE_READ_INDEX];
-        } else {
-            mlle_error_set_literal(error, 1, 1, "Out of memory.");
-        }
+        close(child_to_parent_pipe_fd[PIPE_WRITE_INDEX]);
+        connections->fd_to_child = parent_to_child_pipe_fd[PIPE_WRITE_INDEX];
+        connections->fd_from_child = child_to_parent_pipe_fd[PIPE_READ_INDEX];
     }
 
     return connections;
-- 
2.43.0


From 220a49bc56a085283ab26ad716e39ef7a7b4f340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:39 +0000
Subject: [PATCH 04/36] fix: message data is read up to its announced length
 and never beyond, from any number of TLS records

---
 src/common/mlle_ssl.c   |   2 +
 src/common/mlle_utils.c | 119 ++++++++++++++++++++++++++++++----------
 src/common/mlle_utils.h |   2 +
 src/lve/mlle_lve.c      |  35 +++++++++---
 4 files changed, 123 insertions(+), 35 deletions(-)

diff --git a/src/common/mlle_ssl.c b/src/common/mlle_ssl.c
index a7de6d3..262ff82 100644
--- a/src/common/mlle_ssl.c
+++ b/src/common/mlle_ssl.c
@@ -358,6 +358,7 @@ int ssl_read_message(SSL *ssl, char **messageBuffer, int *errorCode)
             else
             {
                 // Client has shutdown, I/O error or similar.
+                free(buffer);
                 return errorResult;
             }
         }
@@ -376,6 +377,7 @@ int ssl_read_message(SSL *ssl, char **messageBuffer, int *errorCode)
             buffer = malloc(neededSpace);
             if (buffer == NULL)
             {
+                free(tmpPointer);
                 return -1;
             }
 
diff --git a/src/common/mlle_utils.c b/src/common/mlle_utils.c
index 9b39e26..ccbd6ea 100644
--- a/src/common/mlle_utils.c
+++ b/src/common/mlle_utils.c
@@ -38,6 +38,10 @@
  *      command - the structure where we will place the
  *                extracted data.
  *      buffer - the message containing command and data.
+ *
+ * Returns:
+ *      The number of data bytes in the message. The data is NULL
+ *      if there is more than announced or no memory for it.
  *************************************************************/
 size_t extract_data(struct mlle_command **command, char *buffer, size_t buffer_len)
 {
@@ -52,7 +56,7 @@ size_t extract_data(struct mlle_command **command, char *buffer, size_t buffer_l
 
     // Get pointer to data part
     // Everything after the first new line character is the data part.
-    data_part = strstr(buffer, "\n");
+    data_part = memchr(buffer, '\n', buffer_len);
     if (data_part == NULL)
     {
         return 0;
@@ -60,11 +64,17 @@ size_t extract_data(struct mlle_command **command, char *buffer, size_t buffer_l
     data_part++;
     data_len = buffer_len - (data_part - buffer);
 
+    // There must not be more data than the announced length.
+    if (data_len > (*command)->length)
+    {
+        return data_len;
+    }
+
     // Allocate memory for total length of data to read.
     (*command)->data = malloc((*command)->length + 1);
     if ((*command)->data == NULL)
     {
-        return 0;
+        return data_len;
     }
 
     // Copy data
@@ -74,6 +84,69 @@ size_t extract_data(struct mlle_command **command, char *buffer, size_t buffer_l
     return data_len;
 }
 
+/**************************************************************
+ * Read the data part of a message. The message may be divided
+ * into several SSL records, so keep reading until the announced
+ * length has arrived.
+ *
+ * Parameters:
+ *      command - the command that the data belongs to.
+ *      buffer - the first part of the message: the command and
+ *               the beginning of the data.
+ *      errorCode - receives the SSL error code if reading failed.
+ *
+ * Returns:
+ *      1 - the data is complete.
+ *      0 - the data could not be stored or is longer than announced.
+ *     -1 - reading failed.
+ *************************************************************/
+int mlle_read_data(SSL *ssl, struct mlle_command *command, char *buffer, size_t buffer_len, int *errorCode)
+{
+    size_t totalBytesRead = 0;
+    int bytesRead = 0;
+    char *messageBuffer = NULL;
+    int result = 1;
+
+    totalBytesRead = extract_data(&command, buffer, buffer_len);
+    if (memchr(buffer, '\n', buffer_len) == NULL || totalBytesRead > command->length)
+    {
+        return 0;
+    }
+
+    // Without memory for the data it is still read, but thrown away.
+    while (result == 1 && totalBytesRead < command->length)
+    {
+        bytesRead = ssl_read_message(ssl, &messageBuffer, errorCode);
+        if (bytesRead < 0)
+        {
+            result = -1;
+        }
+        else if ((size_t)bytesRead > command->length - totalBytesRead)
+        {
+            result = 0;
+        }
+        else
+        {
+            // Add data to command buffer.
+            if (command->data != NULL)
+            {
+                memcpy(command->data + totalBytesRead, messageBuffer, bytesRead);
+            }
+            totalBytesRead += bytesRead;
+        }
+        free(messageBuffer);
+        messageBuffer = NULL;
+    }
+
+    if (result != 1)
+    {
+        free(command->data);
+        command->data = NULL;
+    }
+
+    return command->data == NULL && result == 1 ? 0 : result;
+}
+
 /****************************************
  * Read a command.
  *
@@ -86,21 +159,13 @@ int mlle_read_command(SSL *ssl,
                   struct mlle_error **error)
 {
     int bytesRead = 0;
-    size_t totalBytesRead = 0;
+    int dataResult = 1;
     char *token_buffer = NULL;
     enum mlle_grammar_error_t grammar_error = LE_UNKNOWN_ERROR;
     char error_msg[ERROR_SIZE] = { '\0' };
     int errorCode = 0;
     char *messageBuffer = NULL;
 
-    // The SSL buffer can hold at most 16 kb of data.
-    messageBuffer = calloc(SSL_RECORD_SIZE, 1);
-    if (messageBuffer == NULL) 
-    {
-        mlle_error_set_literal(error, 1, 1, "Failed to allocate memory for the message buffer");
-        return 0;
-    }
-
     // Read data from SSL.
     bytesRead = ssl_read_message(ssl, &messageBuffer, &errorCode);
 
@@ -109,6 +174,7 @@ int mlle_read_command(SSL *ssl,
     {
         ssl_get_error_string(errorCode, error_msg, ERROR_SIZE);
         mlle_error_set_literal(error, 1, 1, error_msg);
+        free(messageBuffer);
         return 0;
     }
 
@@ -117,6 +183,7 @@ int mlle_read_command(SSL *ssl,
     if (token_buffer == NULL) 
     {
         mlle_error_set_literal(error, 1, 1, "Failed to allocate memory for the token buffer");
+        free(messageBuffer);
         return 0;
     }
     memcpy(token_buffer, messageBuffer, bytesRead);
@@ -138,6 +205,7 @@ int mlle_read_command(SSL *ssl,
         {
             mlle_error_set_literal(error, 1, 1, error_msg);
         }
+        free(messageBuffer);
         return 0;
     }
     assert(command->id != MLLE_PROTOCOL_UNDEFINED_CMD);
@@ -146,26 +214,21 @@ int mlle_read_command(SSL *ssl,
     if (mlle_command_info[command->id].msg_form == MLLE_PROTOCOL_LENGTH_MSG_FORM
         || mlle_command_info[command->id].msg_form == MLLE_PROTOCOL_NUMBER_AND_LENGTH_MSG_FORM)
     {
-        // Extract data and add to command buffer.
-        totalBytesRead = extract_data(&command, messageBuffer, bytesRead);
-
-        if (command->data == NULL)
-        {
-            mlle_error_set_literal(error, 1, 1, "End Of File.");
-        }
+        // Add the data, which may arrive in several records.
+        dataResult = mlle_read_data(ssl, command, messageBuffer, bytesRead, &errorCode);
     }
+    free(messageBuffer);
 
-    // -----------------------------
-    // Are there more data to read?
-    // -----------------------------
-    while (totalBytesRead < command->length)
+    if (dataResult < 0)
     {
-        // Read more data.
-        bytesRead = ssl_read_message(ssl, &messageBuffer, &errorCode);
-
-        // Add data to command buffer.
-        memcpy(command->data + totalBytesRead, messageBuffer, bytesRead);
-        totalBytesRead += bytesRead;
+        ssl_get_error_string(errorCode, error_msg, ERROR_SIZE);
+        mlle_error_set_literal(error, 1, 1, error_msg);
+        return 0;
+    }
+    if (dataResult == 0)
+    {
+        mlle_error_set_literal(error, 1, 1, "Failed to read the data of the message.");
+        return 0;
     }
 
     return 1;
diff --git a/src/common/mlle_utils.h b/src/common/mlle_utils.h
index d5f6290..7802bb3 100644
--- a/src/common/mlle_utils.h
+++ b/src/common/mlle_utils.h
@@ -39,6 +39,8 @@ extern "C" {
  ***********************************************************/
 size_t extract_data(struct mlle_command **command, char *buffer, size_t buffer_len);
 
+int mlle_read_data(SSL *ssl, struct mlle_command *command, char *buffer, size_t buffer_len, int *errorCode);
+
 int mlle_read_command(SSL *ssl,
                   struct mlle_command *command,
                   struct mlle_error **error);
diff --git a/src/lve/mlle_lve.c b/src/lve/mlle_lve.c
index 71b83c2..a652483 100644
--- a/src/lve/mlle_lve.c
+++ b/src/lve/mlle_lve.c
@@ -68,6 +68,26 @@ mlle_lve_handle_command(struct mlle_lve_ctx *lve_ctx,
     long tool_protocol_max_version = 0;
     enum mlle_lve_state next_state = MLLE_LVE_STATE_INVALID;
     const int is_in_checkout_feature_without_tool_mode = 0;
+    int data_result = 1;
+    int ssl_error_code = 0;
+
+    // Is this a command with a data part.
+    if (mlle_command_info[command->id].msg_form == MLLE_PROTOCOL_LENGTH_MSG_FORM
+        || mlle_command_info[command->id].msg_form == MLLE_PROTOCOL_NUMBER_AND_LENGTH_MSG_FORM)
+    {
+        // Extract data from message.
+        data_result = mlle_read_data(lve_ctx->ssl, command, buffer, buffer_len, &ssl_error_code);
+        if (data_result < 0) {
+            // The rest of the message cannot be read: end the session.
+            SSL_set_shutdown(lve_ctx->ssl, SSL_RECEIVED_SHUTDOWN);
+            return current_state;
+        }
+        if (data_result == 0) {
+            mlle_send_error(lve_ctx->ssl, MLLE_PROTOCOL_COMMAND_NOT_UNDERSTOOD_ERROR,
+                    "Failed to read the data of the message.");
+            return current_state;
+        }
+    }
 
     // Get next state.
     next_state = mlle_next_state(current_state, command->id, error_msg, error_length);
@@ -76,16 +96,11 @@ mlle_lve_handle_command(struct mlle_lve_ctx *lve_ctx,
     if (next_state == MLLE_LVE_STATE_INVALID) {
         mlle_send_error(lve_ctx->ssl, MLLE_PROTOCOL_COMMAND_NOT_UNDERSTOOD_ERROR,
                 error_msg);
+        free(command->data);
+        command->data = NULL;
         return current_state;
     }
 
-    // Is this a command with a data part.
-    if (mlle_command_info[command->id].msg_form == MLLE_PROTOCOL_LENGTH_MSG_FORM)
-    {
-        // Extract data from message.
-        extract_data(&command, buffer, buffer_len);
-    }
-
     switch (current_state) {
     case MLLE_LVE_STATE_INVALID:
         mlle_send_error(lve_ctx->ssl, MLLE_PROTOCOL_UNDEFINED_ERROR,
@@ -191,6 +206,10 @@ int mlle_lve_receive(struct mlle_lve_ctx *lve_ctx)
         {
             // Create a temporary buffer for tokens.
             tokenBuffer = malloc(bytesRead + 1);
+            if (tokenBuffer == NULL)
+            {
+                break;
+            }
             memcpy(tokenBuffer, messageBuffer, bytesRead);
             tokenBuffer[bytesRead] = 0;
 
@@ -233,6 +252,8 @@ int mlle_lve_receive(struct mlle_lve_ctx *lve_ctx)
         }
     }
 
+    free(messageBuffer);
+
     return 1;
 }
 
-- 
2.43.0


From 5830b5a651979e7d2d2ace0151637725db55fa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:59 +0000
Subject: [PATCH 05/36] fix: a LIB request that cannot be obeyed is answered
 with an error and may be repeated

---
 src/lve/mlle_lve.c         |  5 +++++
 src/lve/mlle_lve_libpath.c | 28 ++++++++++++++++++++++------
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/lve/mlle_lve.c b/src/lve/mlle_lve.c
index a652483..1c35150 100644
--- a/src/lve/mlle_lve.c
+++ b/src/lve/mlle_lve.c
@@ -156,6 +156,11 @@ mlle_lve_handle_command(struct mlle_lve_ctx *lve_ctx,
         break;
     }
 
+    // The library path could not be set, so the tool may try again.
+    if (next_state == MLLE_LVE_STATE_LICENSE && lve_ctx->libpath == NULL) {
+        next_state = current_state;
+    }
+
     if (command->data != NULL) {
         free(command->data);
         command->data = NULL;
diff --git a/src/lve/mlle_lve_libpath.c b/src/lve/mlle_lve_libpath.c
index 07c2a89..6e9a3be 100644
--- a/src/lve/mlle_lve_libpath.c
+++ b/src/lve/mlle_lve_libpath.c
@@ -62,14 +62,23 @@ int mlle_lve_libpath(struct mlle_lve_ctx *lve_ctx,
 
     // Is there something to check?
     if ((command->data == NULL) || (command->length == 0)) {
-        lve_ctx->tool_error_type = MLLE_PROTOCOL_FILE_NOT_FOUND_ERROR;
-        lve_ctx->tool_error_msg = "Path to library is missing.";
+        if (!is_in_checkout_feature_without_tool_mode) {
+            mlle_send_error(lve_ctx->ssl, MLLE_PROTOCOL_FILE_NOT_FOUND_ERROR,
+                            "Path to library is missing.");
+        }
         return 0;
     }
 
     path_size = command->length;
 
     lve_ctx->libpath = malloc(path_size + 1);
+    if (lve_ctx->libpath == NULL) {
+        if (!is_in_checkout_feature_without_tool_mode) {
+            mlle_send_error(lve_ctx->ssl, MLLE_PROTOCOL_OTHER_ERROR,
+                            "Failed to allocate memory for library path.");
+        }
+        return 0;
+    }
     memcpy(lve_ctx->libpath, command->data, path_size);
     lve_ctx->libpath[path_size] = '\0';
 
@@ -85,9 +94,13 @@ int mlle_lve_libpath(struct mlle_lve_ctx *lve_ctx,
 
     lve_ctx->cr_context = mlle_cr_create(lve_ctx->libpath);
     if (NULL == lve_ctx->cr_context) {
-        lve_ctx->tool_error_type = MLLE_PROTOCOL_OTHER_ERROR;
-        lve_ctx->tool_error_msg =
-            "Failed to allocate memory for decryption context.";
+        free(lve_ctx->libpath);
+        lve_ctx->libpath = NULL;
+        if (!is_in_checkout_feature_without_tool_mode) {
+            mlle_send_error(
+                lve_ctx->ssl, MLLE_PROTOCOL_OTHER_ERROR,
+                "Failed to allocate memory for decryption context.");
+        }
         return 0;
     }
     /* Check global licence, if defined. */
@@ -95,6 +108,7 @@ int mlle_lve_libpath(struct mlle_lve_ctx *lve_ctx,
     if (lve_ctx->tool_approved) {
         struct mlle_error *error = NULL;
         int success = 0;
+        const char *error_msg = NULL;
 
         success = mlle_lve_setup_licensing(lve_ctx, &error);
         if (success) {
@@ -103,7 +117,9 @@ int mlle_lve_libpath(struct mlle_lve_ctx *lve_ctx,
                 STR(MLLE_GLOBAL_LICENSE_FEATURE), &error);
         }
         if (!success) {
-            lve_ctx->tool_error_msg = strdup(mlle_error_get_message(error));
+            error_msg = mlle_error_get_message(error);
+            lve_ctx->tool_error_msg =
+                error_msg != NULL ? strdup(error_msg) : NULL;
             lve_ctx->tool_error_type = MLLE_PROTOCOL_LICENSE_ERROR;
             lve_ctx->tool_approved = 0;
             if(!is_in_checkout_feature_without_tool_mode) {
-- 
2.43.0


From 65ed525576fe572c4f8e14652d099af5e48115c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:59 +0000
Subject: [PATCH 06/36] fix: a peer without a certificate is not an allowed
 tool instead of crashing the LVE

---
 src/lve/mlle_lve_pubkey.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lve/mlle_lve_pubkey.c b/src/lve/mlle_lve_pubkey.c
index 31300b7..df59e9b 100644
--- a/src/lve/mlle_lve_pubkey.c
+++ b/src/lve/mlle_lve_pubkey.c
@@ -74,7 +74,8 @@ int validate()
     // global_tool_pub_key is the public key received in
     // the LVE:s callback method during TLS handshake.
     for (i = 0; i < PUBLIC_KEY_TOOL_NUM; i++){
-        if (strcmp(global_tool_pub_key, PUBLIC_KEY_TOOL[i]) == 0)
+        if (global_tool_pub_key != NULL
+            && strcmp(global_tool_pub_key, PUBLIC_KEY_TOOL[i]) == 0)
         {
             /* Found matching key. */
             break;            
-- 
2.43.0


From 5f31463bae925cebec2fe3cef9fa85d94d705fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:59 +0000
Subject: [PATCH 07/36] fix: the LVE returns its licenses when the tool has
 gone away while it writes

---
 src/lve/mlle_lve.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lve/mlle_lve.c b/src/lve/mlle_lve.c
index 1c35150..46cff64 100644
--- a/src/lve/mlle_lve.c
+++ b/src/lve/mlle_lve.c
@@ -44,6 +44,8 @@
 #ifdef WIN32
 #include <io.h>
 #include <fcntl.h>
+#else
+#include <signal.h>
 #endif
 
 
@@ -281,7 +283,9 @@ void mlle_lve_shutdown(struct mlle_lve_ctx *lve_ctx)
     */
     free(lve_ctx->libpath);
 
-    SSL_shutdown (lve_ctx->ssl);
+    if (lve_ctx->ssl != NULL) {
+        SSL_shutdown (lve_ctx->ssl);
+    }
     SSL_free (lve_ctx->ssl);
 
     fflush(NULL);
@@ -296,6 +300,10 @@ void mlle_lve_init(struct mlle_lve_ctx *lve_ctx)
 #ifdef _WIN32
     _setmode(_fileno(lve_ctx->in_stream), _O_BINARY);
     _setmode(_fileno(lve_ctx->out_stream), _O_BINARY);
+#else
+    /* A tool that has gone away must not end the LVE before its licenses
+       are returned. */
+    signal(SIGPIPE, SIG_IGN);
 #endif
 }
 
-- 
2.43.0


From 7163ee46972b765873dbc6d0afa891e59436a73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:59 +0000
Subject: [PATCH 08/36] fix: an LVE option without a value is reported instead
 of crashing

---
 src/lve/lve.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lve/lve.c b/src/lve/lve.c
index 6d5e7a1..3e71a56 100644
--- a/src/lve/lve.c
+++ b/src/lve/lve.c
@@ -233,6 +233,11 @@ int main(int argc, char **argv)
                 goto error;
             }
             i++;
+            if (i == argc) {
+                fprintf(stderr,
+                        "Error: Option --checkout-feature needs a value\n");
+                goto error;
+            }
             checkout_feature_sz =
                 (strlen(argv[i]) + 1) * sizeof(*checkout_feature);
             checkout_feature = malloc(checkout_feature_sz);
@@ -250,6 +255,10 @@ int main(int argc, char **argv)
                 goto error;
             }
             i++;
+            if (i == argc) {
+                fprintf(stderr, "Error: Option --libpath needs a value\n");
+                goto error;
+            }
             libpath_sz = (strlen(argv[i]) + 1) * sizeof(*libpath);
             libpath = malloc(libpath_sz);
             if (libpath == NULL) {
-- 
2.43.0


From 2962f2c431244264f3049c5c4fe5e4395ceff483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:59 +0000
Subject: [PATCH 09/36] fix: the message of an SSL error is always set

---
 src/common/mlle_ssl.c  | 6 ++++++
 src/lve/mlle_ssl_lve.c | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/common/mlle_ssl.c b/src/common/mlle_ssl.c
index 262ff82..48fd433 100644
--- a/src/common/mlle_ssl.c
+++ b/src/common/mlle_ssl.c
@@ -443,8 +443,14 @@ void ssl_get_error_string(int error_code, char *error, size_t error_len)
         case SSL_ERROR_SSL:
             err_str = "SSL_ERROR_SSL";
             break;
+        case SSL_ERROR_ZERO_RETURN:
+            err_str = "SSL_ERROR_ZERO_RETURN";
+            break;
     }
 
+    // There may be no queued error with a reason.
+    snprintf(error, error_len, "%s", err_str);
+
     while ((error_value = ERR_get_error()) > 0)
     {
         snprintf(error, error_len, "%s. reason: %s", err_str, (char*) ERR_reason_error_string(error_value));
diff --git a/src/lve/mlle_ssl_lve.c b/src/lve/mlle_ssl_lve.c
index dbb0582..e7c3970 100644
--- a/src/lve/mlle_ssl_lve.c
+++ b/src/lve/mlle_ssl_lve.c
@@ -209,7 +209,7 @@ int lve_perform_handshake(struct mlle_lve_ctx *lve_ctx)
 {
     int result = 0;
     int errorCode = 0;
-    char errorString[SSL_ERROR_BUF_LEN];
+    static char errorString[SSL_ERROR_BUF_LEN];
 
     if ( (lve_ctx == NULL) || (lve_ctx->ssl == NULL) )
     {
-- 
2.43.0


From d736c7534f0dd5ceee5fadb981b39592c6aade91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:59 +0000
Subject: [PATCH 10/36] fix: failed allocations and sends give an error reply
 or result instead of none

---
 src/common/mlle_error.c    |  2 +-
 src/common/mlle_io.c       | 46 +++++++++++++++++++++++++-------------
 src/common/mlle_io.h       |  6 ++---
 src/common/mlle_ssl.c      | 12 ++++++++--
 src/lve/mlle_lve_feature.c |  7 ++++--
 src/lve/mlle_lve_file.c    | 27 ++++++++++++----------
 src/tool/mlle_licensing.c  | 38 ++++++++++++++++++++++++++-----
 7 files changed, 96 insertions(+), 42 deletions(-)

diff --git a/src/common/mlle_error.c b/src/common/mlle_error.c
index d8ded30..b1a5998 100644
--- a/src/common/mlle_error.c
+++ b/src/common/mlle_error.c
@@ -189,7 +189,7 @@ mlle_error_get_cause(struct mlle_error *error)
 char *
 mlle_error_get_message(struct mlle_error *error)
 {
-    return error->message;
+    return error != NULL ? error->message : NULL;
 }
 
 #ifdef _MSC_VER
diff --git a/src/common/mlle_io.c b/src/common/mlle_io.c
index 905234c..e846bfc 100644
--- a/src/common/mlle_io.c
+++ b/src/common/mlle_io.c
@@ -142,6 +142,7 @@ char *mlle_io_read_file(const char *file_path, size_t *file_size,
             error, 1, 1,
             "Couldn't find file size for %s. The error message was: %s",
             file_path, strerror(errno));
+        fclose(file);
         return NULL;
     }
     size = stat_info.st_size;
@@ -150,6 +151,7 @@ char *mlle_io_read_file(const char *file_path, size_t *file_size,
     if (file_buffer == NULL) {
         mlle_error_set(error, 1, 1, "Couldn't allocate memory to read file: %s",
                        file_path);
+        fclose(file);
         return NULL;
     }
 
@@ -206,10 +208,11 @@ int mlle_send_number_form(SSL *ssl, enum mlle_protocol_command_id command_id,
     return result;
 }
 
-void mlle_send_length_form(SSL *ssl, enum mlle_protocol_command_id command_id,
+int mlle_send_length_form(SSL *ssl, enum mlle_protocol_command_id command_id,
                            size_t length, // Length of data.
                            const char *data)
 {
+    int result = -1;
     int print_result = 0;
     size_t message_length = 0;
     char *output = NULL;
@@ -219,7 +222,7 @@ void mlle_send_length_form(SSL *ssl, enum mlle_protocol_command_id command_id,
     output_length = NUMBER_FORM_BUFFER_SIZE + length + 1;
     output = malloc(output_length);
     if (output == NULL) {
-        return;
+        return -1;
     }
 
     // Add command and length to array.
@@ -232,26 +235,30 @@ void mlle_send_length_form(SSL *ssl, enum mlle_protocol_command_id command_id,
         message_length = length + print_result;
 
         // Send array
-        ssl_write_message(ssl, output, message_length);
+        result = ssl_write_message(ssl, output, message_length);
     }
 
     memset(output, 0, message_length);
     free(output);
+
+    return result;
 }
 
-void mlle_send_string(SSL *ssl, enum mlle_protocol_command_id command_id,
+int mlle_send_string(SSL *ssl, enum mlle_protocol_command_id command_id,
                       const char *string)
 {
-    size_t length = strlen(string);
+    size_t length = string != NULL ? strlen(string) : 0;
 
-    mlle_send_length_form(ssl, command_id, length, string);
+    return mlle_send_length_form(ssl, command_id, length,
+                                 string != NULL ? string : "");
 }
 
-void mlle_send_number_and_length_form(SSL *ssl,
+int mlle_send_number_and_length_form(SSL *ssl,
                                       enum mlle_protocol_command_id command_id,
                                       long number, size_t length,
                                       const char *data)
 {
+    int result = -1;
     int print_result = 0;
     size_t message_length = 0;
     char *output = NULL;
@@ -261,7 +268,7 @@ void mlle_send_number_and_length_form(SSL *ssl,
     output_length = NUMBER_AND_LENGTH_FORM_BUFFER_SIZE + length + 1;
     output = malloc(output_length);
     if (output == NULL) {
-        return;
+        return -1;
     }
 
     // Add command, number and length to array.
@@ -275,21 +282,28 @@ void mlle_send_number_and_length_form(SSL *ssl,
         message_length = length + print_result;
 
         // Send array
-        ssl_write_message(ssl, output, message_length);
+        result = ssl_write_message(ssl, output, message_length);
     }
 
     memset(output, 0, message_length);
     free(output);
+
+    return result;
 }
 
 void mlle_send_error(SSL *ssl, long error_code, const char *error_msg)
 {
-    size_t length = strlen(error_msg);
-    if (error_msg != NULL) {
-        mlle_send_number_and_length_form(ssl, MLLE_PROTOCOL_ERROR_CMD,
-                                         error_code, length, error_msg);
-    } else {
-        mlle_send_number_and_length_form(ssl, MLLE_PROTOCOL_ERROR_CMD,
-                                         error_code, 0, "");
+    char output[NUMBER_AND_LENGTH_FORM_BUFFER_SIZE] = {0};
+
+    if (error_msg == NULL) {
+        error_msg = "";
+    }
+    if (mlle_send_number_and_length_form(ssl, MLLE_PROTOCOL_ERROR_CMD,
+                                         error_code, strlen(error_msg),
+                                         error_msg) < 0) {
+        // No memory for the message: send the error without it.
+        snprintf(output, sizeof(output), "%s %ld 0\n",
+                 mlle_command_info[MLLE_PROTOCOL_ERROR_CMD].name, error_code);
+        ssl_write_message(ssl, output, strlen(output));
     }
 }
diff --git a/src/common/mlle_io.h b/src/common/mlle_io.h
index c47d45b..2750ef4 100644
--- a/src/common/mlle_io.h
+++ b/src/common/mlle_io.h
@@ -64,13 +64,13 @@ void mlle_send_simple_form(SSL *ssl, enum mlle_protocol_command_id command_id);
 int mlle_send_number_form(SSL *ssl, enum mlle_protocol_command_id command_id,
                           long number);
 
-void mlle_send_length_form(SSL *ssl, enum mlle_protocol_command_id command_id,
+int mlle_send_length_form(SSL *ssl, enum mlle_protocol_command_id command_id,
                            size_t length, const char *data);
 
-void mlle_send_string(SSL *ssl, enum mlle_protocol_command_id command,
+int mlle_send_string(SSL *ssl, enum mlle_protocol_command_id command,
                       const char *string);
 
-void mlle_send_number_and_length_form(SSL *ssl,
+int mlle_send_number_and_length_form(SSL *ssl,
                                       enum mlle_protocol_command_id command_id,
                                       long number, size_t length,
                                       const char *data);
diff --git a/src/common/mlle_ssl.c b/src/common/mlle_ssl.c
index 48fd433..90a4d92 100644
--- a/src/common/mlle_ssl.c
+++ b/src/common/mlle_ssl.c
@@ -184,8 +184,11 @@ char* get_public_key(RSA *rsa)
         public_key = (char*)malloc(key_length + 1);
 
         // Read from memory to array.
-        BIO_read(mem, public_key, key_length);
-        public_key[key_length] = '\0';
+        if (public_key != NULL)
+        {
+            BIO_read(mem, public_key, key_length);
+            public_key[key_length] = '\0';
+        }
     }
 
     BIO_free(mem);
@@ -267,6 +270,11 @@ int ssl_write_message(SSL *ssl, char *message, size_t len)
     int errorCode = 0;
     char error[SSL_ERROR_BUF_LEN];
 
+    if (ssl == NULL)
+    {
+        return -1;
+    }
+
     while ((bytes = SSL_write(ssl, message, (int)len)) < 0)
     {
         errorCode = SSL_get_error(ssl, bytes);        
diff --git a/src/lve/mlle_lve_feature.c b/src/lve/mlle_lve_feature.c
index 68a7c9d..2af5ff6 100644
--- a/src/lve/mlle_lve_feature.c
+++ b/src/lve/mlle_lve_feature.c
@@ -72,8 +72,11 @@ mlle_lve_feature(struct mlle_lve_ctx *lve_ctx,
         return 1;
     } else {
         if (!is_in_checkout_feature_without_tool_mode) {
-            mlle_send_string(lve_ctx->ssl, MLLE_PROTOCOL_NO_CMD,
-                    mlle_error_get_message(error));
+            if (mlle_send_string(lve_ctx->ssl, MLLE_PROTOCOL_NO_CMD,
+                    mlle_error_get_message(error)) < 0) {
+                mlle_send_error(lve_ctx->ssl, MLLE_PROTOCOL_OTHER_ERROR,
+                        "Couldn't send explanation");
+            }
         }
         mlle_error_free(&error);
     
diff --git a/src/lve/mlle_lve_file.c b/src/lve/mlle_lve_file.c
index 76067ee..4231df2 100644
--- a/src/lve/mlle_lve_file.c
+++ b/src/lve/mlle_lve_file.c
@@ -39,6 +39,8 @@ mlle_lve_file(struct mlle_lve_ctx *lve_ctx,
     struct mlle_error *error = NULL;
     char *file_extension;
     int decrypted_size = 0;
+    int send_result = 0;
+    char *allocated_error_msg = NULL;
 
     if (!lve_ctx->tool_approved) {
         error_code = lve_ctx->tool_error_type;
@@ -75,10 +77,7 @@ mlle_lve_file(struct mlle_lve_ctx *lve_ctx,
         file_out_buffer = malloc(file_size + 1);
         if (file_out_buffer == NULL) {
             error_code = MLLE_PROTOCOL_OTHER_ERROR;
-            error_msg = malloc(100 + path_size);
-            if (error_msg != NULL) {
-                snprintf(error_msg, 100 + path_size, "Could not allocate memory to decrypt file %s.", file_path);
-            }
+            error_msg = "Couldn't allocate memory";
             goto CLEANUP;
         }
 
@@ -86,37 +85,41 @@ mlle_lve_file(struct mlle_lve_ctx *lve_ctx,
         
         if (decrypted_size < 0) {
             error_code = MLLE_PROTOCOL_OTHER_ERROR;
-            error_msg = malloc(100 + path_size);
-            if (error_msg != NULL) {
+            error_msg = "Failed to decrypt file, might be corrupted.";
+            allocated_error_msg = malloc(100 + path_size);
+            if (allocated_error_msg != NULL) {
+                error_msg = allocated_error_msg;
                 snprintf(error_msg, 100 + path_size, "Failed to decrypt file %s, might be corrupted.", file_path);
             }
             goto CLEANUP;
         }
         file_size = decrypted_size;
         /* Send file data. */
-        mlle_send_length_form(lve_ctx->ssl, MLLE_PROTOCOL_FILECONT_CMD,
+        send_result = mlle_send_length_form(lve_ctx->ssl, MLLE_PROTOCOL_FILECONT_CMD,
             file_size, file_out_buffer);
     }
     else {
         /* Send file data. */
-        mlle_send_length_form(lve_ctx->ssl, MLLE_PROTOCOL_FILECONT_CMD,
+        send_result = mlle_send_length_form(lve_ctx->ssl, MLLE_PROTOCOL_FILECONT_CMD,
             file_size, file_buffer);
     }
+    if (send_result < 0) {
+        error_code = MLLE_PROTOCOL_OTHER_ERROR;
+        error_msg = "Couldn't send file";
+    }
 
 
 CLEANUP:
     free(file_buffer);
     free(file_out_buffer);
     free(file_path);
-    if (error_msg != NULL) {
+    if (error_code != MLLE_PROTOCOL_UNDEFINED_ERROR) {
         mlle_send_error(lve_ctx->ssl, error_code, error_msg);
     }
     if (error != NULL) {
         mlle_error_free(&error);
     }
-    if (decrypted_size < 0) {
-        free(error_msg);
-    }
+    free(allocated_error_msg);
 
     return error_code != MLLE_PROTOCOL_UNDEFINED_ERROR;
 }
diff --git a/src/tool/mlle_licensing.c b/src/tool/mlle_licensing.c
index b2648b3..b2b9855 100644
--- a/src/tool/mlle_licensing.c
+++ b/src/tool/mlle_licensing.c
@@ -214,6 +214,8 @@ int mlle_tool_version(const struct mlle_connections *connections,
 
     if (mlle_send_number_form(connections->ssl, MLLE_PROTOCOL_VERSION_CMD, 
         max_protocol_version) < 0) {
+        mlle_error_set_literal(error, MLLE_ERROR_DOMAIN_TOOL, 1,
+                "Failed to send request to LVE.");
         return 0;
     }
     if (!mlle_expect_command(connections->ssl, MLLE_PROTOCOL_VERSION_CMD, &command, error)) {
@@ -259,7 +261,11 @@ int mlle_tool_libpath(const struct mlle_connections *connections,
 
     assert(absolute_path != NULL);
 
-    mlle_send_string(connections->ssl, MLLE_PROTOCOL_LIB_CMD, absolute_path);
+    if (mlle_send_string(connections->ssl, MLLE_PROTOCOL_LIB_CMD, absolute_path) < 0) {
+        mlle_error_set_literal(error, MLLE_ERROR_DOMAIN_TOOL, 1,
+                "Failed to send request to LVE.");
+        return 0;
+    }
     if (!mlle_expect_command(connections->ssl, MLLE_PROTOCOL_YES_CMD, &command, error)) {
         return 0;
     }
@@ -294,7 +300,11 @@ int mlle_tool_feature(const struct mlle_connections *connections,
 
     assert(feature != NULL);
 
-    mlle_send_string(connections->ssl, MLLE_PROTOCOL_FEATURE_CMD, feature);
+    if (mlle_send_string(connections->ssl, MLLE_PROTOCOL_FEATURE_CMD, feature) < 0) {
+        mlle_error_set_literal(error, MLLE_ERROR_DOMAIN_TOOL, 1,
+                "Failed to send request to LVE.");
+        return 0;
+    }
     if (!mlle_expect_commands(connections->ssl, 2, expected_commands,
             &command, error))
     {
@@ -325,7 +335,11 @@ mlle_tool_returnfeature(const struct mlle_connections *connections,
 
     assert(feature != NULL);
 
-    mlle_send_string(connections->ssl, MLLE_PROTOCOL_RETURNFEATURE_CMD, feature);
+    if (mlle_send_string(connections->ssl, MLLE_PROTOCOL_RETURNFEATURE_CMD, feature) < 0) {
+        mlle_error_set_literal(error, MLLE_ERROR_DOMAIN_TOOL, 1,
+                "Failed to send request to LVE.");
+        return 0;
+    }
     if (!mlle_expect_command(connections->ssl, MLLE_PROTOCOL_YES_CMD,
             &command, error))
     {
@@ -349,7 +363,11 @@ mlle_tool_license(const struct mlle_connections *connections,
 
     assert(package != NULL);
 
-    mlle_send_string(connections->ssl, MLLE_PROTOCOL_LICENSE_CMD, package);
+    if (mlle_send_string(connections->ssl, MLLE_PROTOCOL_LICENSE_CMD, package) < 0) {
+        mlle_error_set_literal(error, MLLE_ERROR_DOMAIN_TOOL, 1,
+                "Failed to send request to LVE.");
+        return 0;
+    }
     if (!mlle_expect_commands(connections->ssl, 3, expected_commands,
             &command, error))
     {
@@ -382,7 +400,11 @@ mlle_tool_returnlicense(const struct mlle_connections *connections,
 
     assert(package != NULL);
 
-    mlle_send_string(connections->ssl, MLLE_PROTOCOL_RETURNLICENSE_CMD, package);
+    if (mlle_send_string(connections->ssl, MLLE_PROTOCOL_RETURNLICENSE_CMD, package) < 0) {
+        mlle_error_set_literal(error, MLLE_ERROR_DOMAIN_TOOL, 1,
+                "Failed to send request to LVE.");
+        return 0;
+    }
     if (!mlle_expect_command(connections->ssl, MLLE_PROTOCOL_YES_CMD,
             &command, error))
     {
@@ -402,7 +424,11 @@ mlle_tool_file(const struct mlle_connections *connections,
 
     assert(file_path != NULL);
 
-    mlle_send_string(connections->ssl, MLLE_PROTOCOL_FILE_CMD, file_path);
+    if (mlle_send_string(connections->ssl, MLLE_PROTOCOL_FILE_CMD, file_path) < 0) {
+        mlle_error_set_literal(error, MLLE_ERROR_DOMAIN_TOOL, 1,
+                "Failed to send request to LVE.");
+        return NULL;
+    }
     if (!mlle_expect_command(connections->ssl, MLLE_PROTOCOL_FILECONT_CMD,
             &command, error))
     {
-- 
2.43.0


From f3af163e25a163963911c1df6e9e4642507ef9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:18 +0000
Subject: [PATCH 11/36] fix: encrypt_file without base directory writes the
 named output file

Without <basedirdest> the trailing 'c' of the output name was removed before
the path of the output was built, so "encrypt_file a.mo a.moc" overwrote its
own input.
---
 src/encrypt_decrypt/encrypt_file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encrypt_decrypt/encrypt_file.c b/src/encrypt_decrypt/encrypt_file.c
index a55e112..0e84579 100644
--- a/src/encrypt_decrypt/encrypt_file.c
+++ b/src/encrypt_decrypt/encrypt_file.c
@@ -85,12 +85,12 @@ int main(int argc, char** argv)
     }    
     else {
         char* fname = encrypted + strlen(encrypted);
+        snprintf(pathdest, 4096, "%s", encrypted);
         fname--;
         if (*fname == 'c') {
             *fname = '\0';
         }
         c = mlle_cr_create("");
-        snprintf(pathdest, 4096, "%s", encrypted);
         while (fname != encrypted) {
             char ch = *(fname - 1);
             if (ch == '/' || ch == '\\') break;
-- 
2.43.0


From f3abd8140f47cc6be51da869ac407ff2175a1da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:42 +0000
Subject: [PATCH 12/36] fix: encrypt_file and decrypt_file report output that
 could not be written

A failing fclose() (full disk, I/O error) went unnoticed, so both programs
could exit 0 with a truncated output. A failing allocation of the context and
a failing read of the encrypted file are reported as well.
---
 src/encrypt_decrypt/decrypt_file.c | 15 ++++++++++++---
 src/encrypt_decrypt/encrypt_file.c | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/encrypt_decrypt/decrypt_file.c b/src/encrypt_decrypt/decrypt_file.c
index 0d09cf4..81783b2 100644
--- a/src/encrypt_decrypt/decrypt_file.c
+++ b/src/encrypt_decrypt/decrypt_file.c
@@ -58,6 +58,7 @@ int main(int argc, char** argv)
     c = mlle_cr_create(argv[1]);
     if (NULL == c) {
         fprintf(stderr, "Could not create decryption context object\n");
+        return 1;
     }
 
     /* OpenSSL initialization stuff. */
@@ -78,7 +79,13 @@ int main(int argc, char** argv)
     if (in && out) {
         bytes = (int) fread(in_buf, 1, BUF_SIZE, in);
 
-        bytes = mlle_cr_decrypt(c, argv[2], in_buf, bytes, out_buf);
+        if (ferror(in)) {
+            fprintf(stderr, "Could not read file %s. Error message was: %s\n", path, strerror(errno));
+            bytes = -1;
+        }
+        else {
+            bytes = mlle_cr_decrypt(c, argv[2], in_buf, bytes, out_buf);
+        }
         if (bytes >= 0) {
             if (fwrite(out_buf , 1, bytes, out) == bytes)
                 res = 0;
@@ -91,8 +98,10 @@ int main(int argc, char** argv)
     /* Close files. */
     if (in != NULL)
         fclose(in);
-    if (out != NULL)
-        fclose(out);
+    if (out != NULL && fclose(out) != 0 && res == 0) {
+        fprintf(stderr, "Could not write file %s. Error message was: %s\n", argv[3], strerror(errno));
+        res = 1;
+    }
     if (out != NULL && res != 0)
         remove(argv[3]);
 
diff --git a/src/encrypt_decrypt/encrypt_file.c b/src/encrypt_decrypt/encrypt_file.c
index 0e84579..f3370fe 100644
--- a/src/encrypt_decrypt/encrypt_file.c
+++ b/src/encrypt_decrypt/encrypt_file.c
@@ -73,6 +73,10 @@ int main(int argc, char** argv)
     if (argc == 4) {
         destdir = argv[3];
         c = mlle_cr_create(destdir);
+        if (c == NULL) {
+            fprintf(stderr, "Could not create encryption context object\n");
+            exit(2);
+        }
         snprintf(pathdest, 4096, "%s/%s", destdir, encrypted);
         /* find out what keymask to use by decrypting
         all package.moc recursively if present.
@@ -91,6 +95,10 @@ int main(int argc, char** argv)
             *fname = '\0';
         }
         c = mlle_cr_create("");
+        if (c == NULL) {
+            fprintf(stderr, "Could not create encryption context object\n");
+            exit(2);
+        }
         while (fname != encrypted) {
             char ch = *(fname - 1);
             if (ch == '/' || ch == '\\') break;
@@ -116,8 +124,10 @@ int main(int argc, char** argv)
     /* Close files. */
     if (in != NULL)
         fclose(in);
-    if (out != NULL)
-        fclose(out);
+    if (out != NULL && fclose(out) != 0 && res == 0) {
+        fprintf(stderr, "Could not write file %s. Error message was: %s\n", pathdest, strerror(errno));
+        res = 1;
+    }
     if (out != NULL && res != 0)
         remove(pathdest);
 
-- 
2.43.0


From 29ac13215b7271efede25a884a93f335ae7caed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:42 +0000
Subject: [PATCH 13/36] fix: encryption fails if no random initialisation
 vector or key mask can be had

The result of RAND_bytes() was ignored: on failure uninitialised memory was
used as key mask and initialisation vector and the encryption reported success.
---
 src/decryptors/default/src/mlle_cr_encrypt.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/decryptors/default/src/mlle_cr_encrypt.c b/src/decryptors/default/src/mlle_cr_encrypt.c
index a91c6c3..4486b6d 100644
--- a/src/decryptors/default/src/mlle_cr_encrypt.c
+++ b/src/decryptors/default/src/mlle_cr_encrypt.c
@@ -131,7 +131,10 @@ int mlle_mask_key(mlle_cr_context* context, const char* rel_file_path, unsigned
         }
 
         /* Create and store key mask for this directory */
-        RAND_bytes(store_mask, MLLE_CR_KEY_LEN);
+        if (RAND_bytes(store_mask, MLLE_CR_KEY_LEN) != 1) {
+            fprintf(stderr, "Could not generate key mask for %s\n", rel_file_path);
+            return -1;
+        }
         map_item = (struct mlle_key_mask_map*)calloc(1, sizeof(struct mlle_key_mask_map) + rel_path_len + 1);
         if (map_item == NULL) {
             return -1;
@@ -222,6 +225,8 @@ int mlle_cr_encrypt(mlle_cr_context* context,
     /* Init structures. */
     c_ctx = EVP_CIPHER_CTX_new();
     h_ctx = HMAC_CTX_new();
+    if (!c_ctx || !h_ctx)
+        goto error;
     EVP_CIPHER_CTX_init(c_ctx);
 
     /* Select algorithms and get parameters. */
@@ -235,7 +240,8 @@ int mlle_cr_encrypt(mlle_cr_context* context,
 
     /* Create IV and write it to file. */
     iv = (unsigned char*) malloc(iv_len);
-    RAND_bytes(iv, iv_len);
+    if (!iv || RAND_bytes(iv, iv_len) != 1)
+        goto error;
     if (fwrite(iv, iv_len, 1, out) < 1)
         goto error;
 
-- 
2.43.0


From dec713640d207bbe00ccfe1675adb504fe2cbcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:58 +0000
Subject: [PATCH 14/36] fix: an unreadable package.moc is an error, not a
 missing package

Any failure to read package.moc was taken as 'there is no package.moc', so
encrypt_file could encrypt with the wrong key mask and exit 0 with an output
that cannot be decrypted any more.
---
 src/decryptors/default/src/mlle_cr_decrypt.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index a534ff2..18c35b0 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -21,6 +21,9 @@
 #include <stddef.h>
 #include <stdlib.h>
 #include <string.h>
+#include <errno.h>
+#include <sys/types.h>
+#include <sys/stat.h>
 #include <openssl/evp.h>
 #include <openssl/hmac.h>
 #include "mlle_cr_crypt.h"
@@ -82,6 +85,7 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
     int ret = 0;
     struct mlle_error * error = 0;
     int is_package_mo_file = 0;
+    struct stat info;
     if (mlle_log) {
         fprintf(mlle_log, "mlle_demask_key: %s\n", rel_file_path);
         mlle_debug_log_key(key);
@@ -149,7 +153,12 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
     snprintf(fullpath, sizeof(fullpath), "%s/%s", context->basedir, path);
     file_buffer = mlle_io_read_file(fullpath, &file_size, &error);
     if (error) {
-        /* assume that no file exists; read mask from parent */
+        if (stat(fullpath, &info) == 0 || (errno != ENOENT && errno != ENOTDIR)) {
+            /* there is a package.moc but it could not be read */
+            ret = -1;
+            goto cleanup;
+        }
+        /* no file exists; read mask from parent */
         ret = mlle_demask_key(context, path, key);
         if (ret > 0) {
             /* that file does not exist: this file carries no key mask of its own */
-- 
2.43.0


From a31dcb850380e54c70ed70c68471e6225379a787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:13 +0000
Subject: [PATCH 15/36] fix: packagetool fails when a file cannot be copied
 completely

Read and write errors and failing folders were printed at most; the archive
was made without the missing or truncated files and packagetool exited 0.
---
 src/packagetool/utils.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index e26cbdc..083d5d8 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -2008,10 +2008,15 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
                     if (mkdir(searchPathTo, 0777) == -1) {
                         printf("Error: Failed to create folder %s.\n",
                                searchPathTo);
+                        result = 0;
+                        break;
                     }
 
                     // Use recursive to check the folder we found.
-                    copyDirectoryLinux(searchPath, searchPathTo);
+                    if (!copyDirectoryLinux(searchPath, searchPathTo)) {
+                        result = 0;
+                        break;
+                    }
                 }
                 // Or a file?
                 else if (dir->d_type == DT_REG) {
@@ -2019,8 +2024,10 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
 
                     // file in new location.
                     snprintf(folderName, MAX_PATH_LENGTH, "%s/%s", toPath, dir->d_name);
-                    copyFile(searchPath, folderName);
-
+                    if (!copyFile(searchPath, folderName)) {
+                        result = 0;
+                        break;
+                    }
                 }
             }
         }
@@ -2076,6 +2083,7 @@ int copyFile(char *fromPath, char *toPath)
         printf("Error: When copying file: Failed to read from file "
                "\"%s\".\n",
                fromPath);
+        goto error;
     }
 
     fdWrite = fopen(toPath, "wb");
@@ -2085,11 +2093,20 @@ int copyFile(char *fromPath, char *toPath)
             toPath, strerror(errno));
         goto error;
     }
-    fwrite(data, sizeof(char), buffSize, fdWrite);
+    bytes = fwrite(data, sizeof(char), buffSize, fdWrite);
     if (bytes != buffSize) {
         printf("Error: When copying file: Failed to write to file "
                "\"%s\".\n",
                toPath);
+        goto error;
+    }
+    status = fclose(fdWrite);
+    fdWrite = NULL;
+    if (0 != status) {
+        printf("Error: When copying file: Failed to write to file "
+               "\"%s\": %s\n",
+               toPath, strerror(errno));
+        goto error;
     }
 
 #ifndef WIN32
-- 
2.43.0


From 8a55cd029f3d4dcbb41ec2afdbfb3342eccb0ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:13 +0000
Subject: [PATCH 16/36] fix: packagetool fails when a directory cannot be read
 to its end

A failing readdir() looked like the end of the directory and entries of file
systems that report no d_type were skipped: the files were missing from the
archive, or were left out of the encryption, and packagetool exited 0.
---
 src/packagetool/utils.c | 105 ++++++++++++++++++++++++++++++++++------
 1 file changed, 89 insertions(+), 16 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 083d5d8..3c26178 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -620,6 +620,49 @@ int copyFileToDotLibraryDir(char *filename, char *pathFrom)
         return result;
 }
 
+#if defined linux || defined DARWIN
+/*************************************************************
+ * Read the next entry of a directory. Sets *failed to 1 if the
+ * directory could not be read to its end.
+ ************************************************************/
+static struct dirent *nextEntry(DIR *d, const char *path, int *failed)
+{
+    struct dirent *entry;
+
+    errno = 0;
+    entry = readdir(d);
+    if (entry == NULL && errno != 0) {
+        printf("Failed to read directory %s: %s\n", path, strerror(errno));
+        *failed = 1;
+    }
+
+    return entry;
+}
+
+/*************************************************************
+ * Type of a directory entry (DT_DIR, DT_REG, ...). Asks for the
+ * type of the file if the file system does not put it into the
+ * directory. Returns -1 on error.
+ ************************************************************/
+static int entryType(const char *path, const struct dirent *entry)
+{
+    struct stat info;
+
+    if (entry->d_type != DT_UNKNOWN) {
+        return entry->d_type;
+    }
+    if (lstat(path, &info) != 0) {
+        printf("Failed to read information of file \"%s\": %s\n", path,
+               strerror(errno));
+        return -1;
+    }
+    if (S_ISDIR(info.st_mode)) {
+        return DT_DIR;
+    }
+    return S_ISREG(info.st_mode) ? DT_REG : DT_UNKNOWN;
+}
+#endif
+
 /***************************************
  * Check if a file or directory exists.
  ***************************/
@@ -1016,7 +1059,9 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
     struct dirent *dir;
     char fullPath[MAX_PATH_LENGTH + 1];
     char searchPath[MAX_PATH_LENGTH + 1];
-    size_t path_len = 0;
+    char entryPath[MAX_PATH_LENGTH + 1];
+    int type;
+    int failed = 0;
     mlle_cr_context *context = context_in;
     FILE *in;
 
@@ -1048,7 +1093,8 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
     }
 
     if (result && (d = opendir(fullPath))) {
-        while ((dir = readdir(d)) != NULL && (result == 1)) {
+        while ((result == 1) &&
+               (dir = nextEntry(d, fullPath, &failed)) != NULL) {
             // The first two directories are always "." and "..".
             if (strcmp(dir->d_name, ".") != 0 &&
                 strcmp(dir->d_name, "..") != 0 &&
@@ -1061,8 +1107,16 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
                              dir->d_name);
                 }
 
+                snprintf(entryPath, MAX_PATH_LENGTH + 1, "%s/%s", topLevelPath,
+                         searchPath);
+                type = entryType(entryPath, dir);
+                if (type < 0) {
+                    result = 0;
+                    break;
+                }
+
                 // Have we found a folder?
-                if (dir->d_type == DT_DIR) {
+                if (type == DT_DIR) {
                     // Use recursive to check the folder we found.
                     if (!encryptDirectoryLinux(topLevelPath, searchPath,
                                                context)) {
@@ -1071,7 +1125,7 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
                     }
                 }
                 // Or a file?
-                else if (dir->d_type == DT_REG) {
+                else if (type == DT_REG) {
                     // Encrypt Modelica files.
                     if (isModelicaFile(dir->d_name)) {
                         result = encryptFile(context, topLevelPath, searchPath);
@@ -1080,6 +1134,9 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
             }
         }
         closedir(d);
+        if (failed) {
+            result = 0;
+        }
     } else {
         printf("Failed to open directory %s\n", searchPath);
         result = 0;
@@ -1511,6 +1568,8 @@ int zipDirectoryLinux(struct zip_t *zip, char *path, char *archiveName,
     struct dirent *dir;
     char searchPath[MAX_PATH_LENGTH + 1];
     char zipPath[MAX_PATH_LENGTH + 1] = {'\0'};
+    int type;
+    int failed = 0;
 
     // Find all.
     snprintf(searchPath, MAX_PATH_LENGTH + 1, "%s", path);
@@ -1518,7 +1577,7 @@ int zipDirectoryLinux(struct zip_t *zip, char *path, char *archiveName,
 
     if ((d = opendir(searchPath))) {
         result = 1; // return 'success' for empty directory
-        while ((dir = readdir(d)) != NULL) {
+        while ((dir = nextEntry(d, path, &failed)) != NULL) {
             // The first two directories are always "." and "..".
             if (strcmp(dir->d_name, ".") != 0 &&
                 strcmp(dir->d_name, "..") != 0) {
@@ -1534,8 +1593,14 @@ int zipDirectoryLinux(struct zip_t *zip, char *path, char *archiveName,
 
                 // printf("zip: searchpath: %s\n", searchPath);
 
+                type = entryType(searchPath, dir);
+                if (type < 0) {
+                    result = 0;
+                    break;
+                }
+
                 // Have we found a folder?
-                if (dir->d_type == DT_DIR) {
+                if (type == DT_DIR) {
                     // Use recursive to check the folder we found.
                     result = zipDirectoryLinux(zip, searchPath, archiveName,
                                                encrypted);
@@ -1544,7 +1609,7 @@ int zipDirectoryLinux(struct zip_t *zip, char *path, char *archiveName,
                     }
                 }
                 // Or a file?
-                else if (dir->d_type == DT_REG) {
+                else if (type == DT_REG) {
                     // -----------------------------------------------------------------
                     // Only add file to archive when:
                     // 1. Files are not encrypted.
@@ -1573,6 +1638,9 @@ int zipDirectoryLinux(struct zip_t *zip, char *path, char *archiveName,
             }
         }
         closedir(d);
+        if (failed) {
+            result = 0;
+        }
     } else {
         printf("Failed to open directory %s\n", searchPath);
     }
@@ -1966,13 +2034,9 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
     int result = 1;
 #if defined linux || defined DARWIN
     DIR *d;
-    struct stat info;
     struct dirent *dir;
-    char *data = NULL;
-    int bytes = 0;
-    long buffSize = 0;
-    FILE *fdRead = NULL;
-    FILE *fdWrite = NULL;
+    int type;
+    int failed = 0;
     char searchPath[MAX_PATH_LENGTH];
     char searchPathTo[MAX_PATH_LENGTH];
     char folderName[MAX_PATH_LENGTH];
@@ -1983,7 +2047,7 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
     // printf("searchPath: %s\n", searchPath);
 
     if ((d = opendir(searchPath))) {
-        while ((dir = readdir(d)) != NULL) {
+        while ((dir = nextEntry(d, fromPath, &failed)) != NULL) {
             // The first two directories are always "." and "..".
             if (strcmp(dir->d_name, ".") != 0 &&
                 strcmp(dir->d_name, "..") != 0 &&
@@ -1998,8 +2062,14 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
                              dir->d_name);
                 }
 
+                type = entryType(searchPath, dir);
+                if (type < 0) {
+                    result = 0;
+                    break;
+                }
+
                 // Have we found a folder?
-                if (dir->d_type == DT_DIR) {
+                if (type == DT_DIR) {
 
                     snprintf(searchPathTo, MAX_PATH_LENGTH, "%s/%s", toPath,
                              dir->d_name);
@@ -2019,7 +2089,7 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
                     }
                 }
                 // Or a file?
-                else if (dir->d_type == DT_REG) {
+                else if (type == DT_REG) {
                     // printf("Filnamn: %s\n", dir->d_name);
 
                     // file in new location.
@@ -2032,6 +2102,9 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
             }
         }
         closedir(d);
+        if (failed) {
+            result = 0;
+        }
     } else {
         printf("Failed to open directory %s\n", searchPath);
         return 0;
-- 
2.43.0


From 33eda87f9fa3c46d112ec20fa5c61908368e2717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:13 +0000
Subject: [PATCH 17/36] fix: packagetool finds icons in subfolders and writes
 their path relative to the library

The result of the search in subfolders was dropped (exit 4), the manifest had
the library name in front of the path, and with TMPDIR set the path was cut at
an arbitrary place.
---
 src/packagetool/utils.c | 87 +++++++++++++++++++----------------------
 1 file changed, 40 insertions(+), 47 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 3c26178..0aa0417 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -1163,12 +1163,14 @@ int findFileLinux(const char *filename, const char *path)
     struct dirent *dir;
     char searchPath[MAX_PATH_LENGTH];
     size_t path_len = 0;
+    int type;
+    int failed = 0;
 
     // Find all.
     snprintf(searchPath, MAX_PATH_LENGTH, "%s", path);
 
     if ((d = opendir(searchPath))) {
-        while ((dir = readdir(d)) != NULL) {
+        while ((dir = nextEntry(d, path, &failed)) != NULL) {
             // The first two directories are always "." and "..".
             if (strcmp(dir->d_name, ".") != 0 &&
                 strcmp(dir->d_name, "..") != 0) {
@@ -1182,13 +1184,22 @@ int findFileLinux(const char *filename, const char *path)
                              dir->d_name);
                 }
 
+                type = entryType(searchPath, dir);
+                if (type < 0) {
+                    failed = 1;
+                    break;
+                }
+
                 // Have we found a folder?
-                if (dir->d_type == DT_DIR) {
+                if (type == DT_DIR) {
                     // Use recursive to check the folder we found.
-                    findFileLinux(filename, searchPath);
+                    if (findFileLinux(filename, searchPath)) {
+                        result = 1;
+                        break;
+                    }
                 }
                 // Or a file?
-                else if (dir->d_type == DT_REG) {
+                else if (type == DT_REG) {
                     // Find a specific file.
                     if (strcmp(dir->d_name, filename) == 0) {
                         if (pathToIcon == NULL) {
@@ -1204,6 +1215,9 @@ int findFileLinux(const char *filename, const char *path)
             }
         }
         closedir(d);
+        if (failed) {
+            result = 0;
+        }
     } else {
         printf("Failed to open directory %s\n", searchPath);
         return 0;
@@ -1654,11 +1668,10 @@ int zipDirectoryLinux(struct zip_t *zip, char *path, char *archiveName,
  *********************************************************/
 int cleanUpIconPath()
 {
-    char *tmpDir = NULL;
     char *tmpBuf = NULL;
-    char *ptr1, *ptr2 = NULL;
+    char *ptr = NULL;
     size_t path_len = 0;
-    int i = 0;
+    size_t prefix_len = 0;
 
     // Safety check.
     if (pathToIcon == NULL) {
@@ -1667,54 +1680,34 @@ int cleanUpIconPath()
     }
 
     tmpBuf = pathToIcon;
+    prefix_len = strlen(getCopiedSourcePath());
 
-// Get the tmp path.
-#ifdef WIN32
-    tmpDir = getenv("TEMP");
-#else
-    tmpDir = getenv("TMPDIR");
-    if (tmpDir == NULL) {
-        tmpDir = "/tmp";
+    // The icon was found below the copy of the library.
+    if (strlen(tmpBuf) <= prefix_len + 1) {
+        return 0;
     }
-#endif
+    ptr = tmpBuf + prefix_len + 1;
 
-    // Point to icon path.
-    ptr1 = tmpBuf;
-
-    // Step forward to after temp folders.
-    ptr1 += strlen(tmpDir) + 1;
+    // Create icon path without tmp or library name.
+    path_len = strlen(ptr) + 1;
+    pathToIcon = malloc(path_len);
+    if (pathToIcon == NULL) {
+        pathToIcon = tmpBuf;
+        return 0;
+    }
+    snprintf(pathToIcon, path_len, "%s", ptr);
+    free(tmpBuf);
 
-    if (ptr1 && *ptr1) {
-        // Point to next slash.
 #ifdef WIN32
-        ptr2 = strchr(ptr1, '\\');
-
-        // replace '\\' with '/' according to spec
-        while (ptr2[i]) {
-            if (ptr2[i] == '\\') {
-                ptr2[i] = '/';
-            }
-            i++;
-        }
-#else
-        ptr2 = strchr(ptr1, '/');
-#endif
-
-        // Step forward to after library name.
-        ++ptr2;
-
-        if (ptr2 && *ptr2) {
-            // Create icon path without tmp or library name.
-            path_len = strlen(ptr2) + 1;
-            pathToIcon = malloc(path_len);
-            snprintf(pathToIcon, path_len, "%s", ptr2);
-            return 1;
+    // replace '\\' with '/' according to spec
+    for (ptr = pathToIcon; *ptr; ++ptr) {
+        if (*ptr == '\\') {
+            *ptr = '/';
         }
     }
+#endif
 
-    free(tmpBuf);
-
-    return 0;
+    return 1;
 }
 
 /*****************************************************
-- 
2.43.0


From 95e6c22609c219a4a1036fa8af69d1b41154f8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:41 +0000
Subject: [PATCH 18/36] fix: packagetool writes complete manifests or fails

Lines of the tools and dependencies files longer than 199 characters overflowed
a stack buffer, a last line without newline was dropped, bytes 0xFF ended the
file, and a manifest that could not be opened or written crashed packagetool or
was silently truncated.
---
 src/packagetool/manifest.c | 94 +++++++++++++++++++++++++-------------
 src/packagetool/manifest.h |  6 +--
 2 files changed, 65 insertions(+), 35 deletions(-)

diff --git a/src/packagetool/manifest.c b/src/packagetool/manifest.c
index 5b652b9..6be1135 100644
--- a/src/packagetool/manifest.c
+++ b/src/packagetool/manifest.c
@@ -181,6 +181,7 @@ static void xml_init()
  *****************************/
 int createManifestFile()
 {
+    int result = 0;
     char *path = NULL;
     char pathAndFile[MAX_PATH_LENGTH + 1];
 
@@ -189,6 +190,11 @@ int createManifestFile()
     snprintf(pathAndFile, MAX_PATH_LENGTH + 1, "%s/manifest.xml", path);
 
     fd = fopen(pathAndFile, "w");
+    if (fd == NULL)
+    {
+        printf("Error: Couldn't open file %s for writing.\n", pathAndFile);
+        return 0;
+    }
 
     // Add data to file.
     xml_init();
@@ -196,12 +202,22 @@ int createManifestFile()
     addLibraryHeader();
     addEncryption();
     addIcon();
-    addTools();
-    addDependencies();
+    result = addTools() && addDependencies();
     addFooter();
 
-    fclose(fd);
-    return 1;
+    if (ferror(fd))
+    {
+        result = 0;
+    }
+    if (fclose(fd) != 0)
+    {
+        result = 0;
+    }
+    if (!result)
+    {
+        printf("Error: Failed to create file %s.\n", pathAndFile);
+    }
+    return result;
 }
 
 
@@ -358,15 +374,17 @@ void addIcon()
  * These tools are read from an xml file and pasted into
  * the manifest.xml file.
  *************************************************************/
-void addTools()
+int addTools()
 {
     char *path = NULL;
 
     // Get value from command line argument.
     if ( (containsKey(ARGUMENT_TOOLS_FILE)) && (path = getValueOf(ARGUMENT_TOOLS_FILE)) )
     {
-        copyFileInformation(path);
+        return copyFileInformation(path);
     }
+
+    return 1;
 }
 
 
@@ -375,15 +393,17 @@ void addTools()
  * These dependencies are read from an xml file and pasted into
  * the manifest.xml file.
  ***************************************************************/
-void addDependencies()
+int addDependencies()
 {
     char *path = NULL;
 
     // Get value from command line argument.
     if ( (containsKey(ARGUMENT_DEPENDENCIES_FILE)) && (path = getValueOf(ARGUMENT_DEPENDENCIES_FILE)) )
     {
-        copyFileInformation(path);
+        return copyFileInformation(path);
     }
+
+    return 1;
 }
 
 /********************************
@@ -439,41 +459,51 @@ char *extractPlatform(char *fileName)
  * Copy everything from an xml-file apart from the first line
  * and paste it into the manifest.xml file.
  ***************************************************************/
-void copyFileInformation(char *path)
+int copyFileInformation(char *path)
 {
     FILE *xmlfile;
-    char ch;
-    int index = 0;
+    int ch;
+    int result = 1;
     int firstLine = 1;
-    char lineBuffer[200] = {'\0'};
+    int lineStart = 1;
 
-    if ( (xmlfile = fopen(path, "r")))
+    if ((xmlfile = fopen(path, "r")) == NULL)
     {
-        ch = getc(xmlfile);
+        printf("Error: Couldn't open file %s for reading.\n", path);
+        return 0;
+    }
 
-        while (ch != EOF)
+    while ((ch = getc(xmlfile)) != EOF)
+    {
+        // Skip first line in the file.
+        if (!firstLine)
         {
-            if (ch != '\n')
+            if (lineStart)
             {
-                lineBuffer[index] = ch;
-                ++index;
+                add_xml_indent();
             }
-            else
-            {
-                // Skip first line in the file.
-                if (!firstLine)
-                {
-                    add_xml_indent();
-                    fprintf(fd, "%s\n", lineBuffer);
-                }
-
-                memset(&lineBuffer[0], 0, sizeof(lineBuffer));
-                index = 0;
-                firstLine = 0;
-            }
-            ch = getc(xmlfile);
+            putc(ch, fd);
+        }
+
+        lineStart = (ch == '\n');
+        if (lineStart)
+        {
+            firstLine = 0;
         }
     }
+    // The last line may lack its newline.
+    if (!firstLine && !lineStart)
+    {
+        putc('\n', fd);
+    }
+
+    if (ferror(xmlfile))
+    {
+        printf("Error: Failed to read from file %s.\n", path);
+        result = 0;
+    }
     fclose(xmlfile);
     xml_on_new_line = 1;
+
+    return result;
 }
diff --git a/src/packagetool/manifest.h b/src/packagetool/manifest.h
index dc85627..2fac498 100644
--- a/src/packagetool/manifest.h
+++ b/src/packagetool/manifest.h
@@ -55,14 +55,14 @@ void addEncryption();
  * These tools are read from an xml file and pasted into
  * the manifest.xml file.
  *************************************************************/
-void addTools();
+int addTools();
 
 /****************************************************************
  * This method add libraries that library depends on.
  * These dependencies are read from an xml file and pasted into
  * the manifest.xml file.
  ***************************************************************/
-void addDependencies();
+int addDependencies();
 
 /*******************************
  * Add the footer to the file.
@@ -87,4 +87,4 @@ char *extractPlatform(char *filename);
  * Parameters:
  *      path - path, including filename, to the xml-file.
  ***************************************************************/
-void copyFileInformation(char *path);
+int copyFileInformation(char *path);
-- 
2.43.0


From 248aa15a49ae2d3f4798d0bab0e222ac8146681a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:41 +0000
Subject: [PATCH 19/36] fix: packagetool fails when a file cannot be encrypted

A file that could not be opened made packagetool close an uninitialised stream,
a failing fclose() left a truncated encrypted file in the archive, a package.mo
that could not be opened was left out, and so was one named Package.mo.
---
 src/packagetool/utils.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 0aa0417..1b761cb 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -1090,6 +1090,9 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
         } else {
             result = encryptFile(context, topLevelPath, "package.mo");
         }
+    } else if (errno != ENOENT) {
+        printf("Error: Couldn't open file %s for reading.\n", searchPath);
+        result = 0;
     }
 
     if (result && (d = opendir(fullPath))) {
@@ -1098,7 +1101,14 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
             // The first two directories are always "." and "..".
             if (strcmp(dir->d_name, ".") != 0 &&
                 strcmp(dir->d_name, "..") != 0 &&
-                strcasecmp(dir->d_name, "package.mo") != 0) {
+                strcmp(dir->d_name, "package.mo") != 0) {
+                if (strcasecmp(dir->d_name, "package.mo") == 0) {
+                    // Would be neither encrypted nor put into the archive.
+                    printf("Error: File %s/%s must be named package.mo.\n",
+                           fullPath, dir->d_name);
+                    result = 0;
+                    break;
+                }
                 if (relPath) {
                     snprintf(searchPath, MAX_PATH_LENGTH + 1, "%s/%s", relPath,
                              dir->d_name);
@@ -1344,7 +1354,7 @@ int isEncryptedFile(char *filename)
 int encryptFile(mlle_cr_context *context, const char *basedir,
                 const char *rel_file_path)
 {
-    FILE *in, *out;
+    FILE *in = NULL, *out = NULL;
     int result = 1;
     char file[LONG_FILE_NAME_MAX];
     char newFile[LONG_FILE_NAME_MAX];
@@ -1371,8 +1381,13 @@ int encryptFile(mlle_cr_context *context, const char *basedir,
         result = 0;
     }
 
-    fclose(in);
-    fclose(out);
+    if (in != NULL) {
+        fclose(in);
+    }
+    if (out != NULL && fclose(out) != 0 && result) {
+        printf("Error: Couldn't write file %s.\n", newFile);
+        result = 0;
+    }
 
     return result;
 }
-- 
2.43.0


From 5e4b0c257726722c032a427ada719f645ad5e582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:03 +0000
Subject: [PATCH 20/36] fix: packagetool survives failures to create, look up
 and remove its folders

mkdtemp() failing crashed packagetool, an LVE or extra folder whose stat()
failed was silently left out of the archive, and a staging folder that could
not be opened counted as removed.
---
 src/packagetool/utils.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 1b761cb..c11d4a4 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -167,7 +167,11 @@ static char *getTempDirLinux()
     char TEMP_DIR_TEMPLATE[] = "/tmp/TemporaryFolderXXXXXX";
 
     if (tempStagingFolder == NULL) {
-        tempStagingFolder = strdup(mkdtemp(TEMP_DIR_TEMPLATE));
+        if (mkdtemp(TEMP_DIR_TEMPLATE) == NULL) {
+            printf("Failed to create temporary folder: %s\n", strerror(errno));
+            return NULL;
+        }
+        tempStagingFolder = strdup(TEMP_DIR_TEMPLATE);
         DEBUG_PRINT("%s, tempStagingFolder = %s\n", __func__,
                     tempStagingFolder);
     }
@@ -675,7 +679,8 @@ int fileExists(char *pahtAndFilename)
         return 1;
     }
 
-    return 0;
+    // Any other error does not tell that it does not exist.
+    return (errno != ENOENT && errno != ENOTDIR);
 }
 
 int prepareIconFile()
@@ -813,6 +818,7 @@ static int removeFolderLinux(const char *path)
 
     if (!dir) {
         printf("%s: Failed to open dir\n", __func__);
+        status = -1;
         goto out;
     }
 
-- 
2.43.0


From 35be0c0d738a9575f604ac7e75e0ebaf286bb79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:03 +0000
Subject: [PATCH 21/36] fix: packagetool fails when the archive could not be
 completed

zip_close() has no result, so a full disk while the directory of the archive
is written went unnoticed.
---
 src/packagetool/utils.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index c11d4a4..5ebbfa5 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -85,6 +85,9 @@ char *tempStagingFolder = NULL;
 // ----
 char *sourcePathFolder = NULL;
 
+// Check that a closed zip archive is complete
+int checkZipArchive(char *archiveName);
+
 // Copy directory to staging folder
 int stageFiles(char *copyFromPath, char *copyToPath);
 
@@ -1462,6 +1465,11 @@ int createZipArchive()
 #endif
 error:
     closeZipArchive(zip);
+#ifndef WIN32
+    if (result) {
+        result = checkZipArchive(archiveName);
+    }
+#endif
     return result;
 }
 
@@ -1786,6 +1794,29 @@ void closeZipArchive(struct zip_t *zip)
 #endif
 }
 
+/*****************************************************
+ * zip_close() does not tell if the end of the archive could be
+ * written: check that the archive can be opened again.
+ ****************************************************/
+int checkZipArchive(char *archiveName)
+{
+    int result = 1;
+#ifndef WIN32
+    int status = 0;
+    struct zip_t *zip = zip_openwitherror(archiveName, 0, 'r', &status);
+
+    if (zip == NULL) {
+        printf("Error: Failed to complete zip archive \"%s\". Zip Library "
+               "Error: \"%s\"\n",
+               archiveName, zip_strerror(status));
+        result = 0;
+    } else {
+        zip_close(zip);
+    }
+#endif
+    return result;
+}
+
 int addFileToZipArchive(struct zip_t *zip, char *archiveName, char *zipPath,
                         char *searchPath)
 {
-- 
2.43.0


From 205907433b905b2a78320af733b503e40ead2430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:22 +0000
Subject: [PATCH 22/36] fix: a random encryption key keeps all its bytes

---
 src/embedfile/obfuscate_utils.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/embedfile/obfuscate_utils.c b/src/embedfile/obfuscate_utils.c
index 32046bd..444354c 100644
--- a/src/embedfile/obfuscate_utils.c
+++ b/src/embedfile/obfuscate_utils.c
@@ -70,9 +70,10 @@ void create_header_file(char* name, key_type type, unsigned char *data, size_t l
     size_t i = 0, j = 0;
     FILE *out = NULL;
 
-    /* Remove \r from the string to support windows generated pem files */
+    /* Remove \r from the string to support windows generated pem files,
+       but leave the random bytes of an encryption key as they are */
     for (; i < len; ++i) {
-        if (data[i] == '\r')
+        if (data[i] == '\r' && type != ENCRYPT)
             continue;
         if (i != j)
             data[j] = data[i];
-- 
2.43.0


From 4392814901055c49af293bf29e7197a083981595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:22 +0000
Subject: [PATCH 23/36] fix: the key header generators report unreadable keys,
 failed allocations and headers that could not be written

---
 src/embedfile/obfuscate.c       | 2 +-
 src/embedfile/obfuscate_utils.c | 7 ++++++-
 src/embedfile/randomize_key.c   | 6 ++++++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/embedfile/obfuscate.c b/src/embedfile/obfuscate.c
index ca397fe..82fd421 100644
--- a/src/embedfile/obfuscate.c
+++ b/src/embedfile/obfuscate.c
@@ -131,7 +131,7 @@ void read_file(char* file, char** buf, size_t* len) {
     // Get size of file.
     staterr = stat(file, &fileInfo);
     if (staterr != 0) {
-        fprintf(stderr, "Could not get info on %s\n", *file);
+        fprintf(stderr, "Could not get info on %s\n", file);
         fprintf(stderr, "ERROR [%d] %s", staterr, strerror(staterr));
         exit(1);
     }
diff --git a/src/embedfile/obfuscate_utils.c b/src/embedfile/obfuscate_utils.c
index 444354c..12a2797 100644
--- a/src/embedfile/obfuscate_utils.c
+++ b/src/embedfile/obfuscate_utils.c
@@ -69,6 +69,7 @@ void create_header_file(char* name, key_type type, unsigned char *data, size_t l
 {
     size_t i = 0, j = 0;
     FILE *out = NULL;
+    int failed = 0;
 
     /* Remove \r from the string to support windows generated pem files,
        but leave the random bytes of an encryption key as they are */
@@ -96,5 +97,9 @@ void create_header_file(char* name, key_type type, unsigned char *data, size_t l
 
     write_header_extra(out, type);
 
-    fclose(out);
+    failed = ferror(out);
+    if (fclose(out) != 0 || failed) {
+        fprintf(stderr, "Could not write file '%s'.\n", filename);
+        exit(1);
+    }
 }
diff --git a/src/embedfile/randomize_key.c b/src/embedfile/randomize_key.c
index f70190d..266e540 100644
--- a/src/embedfile/randomize_key.c
+++ b/src/embedfile/randomize_key.c
@@ -113,6 +113,12 @@ int main(int argc, char **argv)
 char *generate_random_bytes(int len)
 {
     char *data = calloc(len, sizeof(char));
+
+    if (data == NULL)
+    {
+        fprintf(stderr, "Could not allocate %d bytes\n", len);
+        return NULL;
+    }
     
     // Generate random bytes.
     if (RAND_bytes(data, len) < 1)
-- 
2.43.0


From ed90d27b5ddd645e345d3285551ce831bdc1661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:33 +0000
Subject: [PATCH 24/36] fix: free the data of refused and negative replies in
 the tool library

---
 src/tool/mlle_licensing.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tool/mlle_licensing.c b/src/tool/mlle_licensing.c
index b2b9855..fc6fa5a 100644
--- a/src/tool/mlle_licensing.c
+++ b/src/tool/mlle_licensing.c
@@ -126,6 +126,8 @@ mlle_expect_command(SSL *ssl,
                 "Unexpected command. Expected command %s, but got command %s.",
                 mlle_command_info[expected_command_id].name,
                 mlle_command_info[command->id].name);
+        free(command->data);
+        command->data = NULL;
         return 0;
     }
 
@@ -183,6 +185,8 @@ mlle_expect_commands(SSL *ssl,
         }
         mlle_error_set_literal(error, MLLE_ERROR_DOMAIN_TOOL, 1, err_msg);
         free(err_msg);
+        free(command->data);
+        command->data = NULL;
         return 0;
     }
 
@@ -316,6 +320,7 @@ int mlle_tool_feature(const struct mlle_connections *connections,
     } else if (command.id == MLLE_PROTOCOL_NO_CMD) {
         mlle_error_set(error, MLLE_ERROR_DOMAIN_TOOL, MLLE_TOOL_ERROR_NO_LICENSE,
                 "%s", command.data);
+        free(command.data);
         return 0;
     } else {
         /* Internal error. */
@@ -383,6 +388,7 @@ mlle_tool_license(const struct mlle_connections *connections,
     } else if (command.id == MLLE_PROTOCOL_NO_CMD) {
         mlle_error_set(error, MLLE_ERROR_DOMAIN_TOOL, MLLE_TOOL_ERROR_NO_LICENSE,
                 "%s", command.data);
+        free(command.data);
         return 0;
     } else {
         /* Internal error. */
@@ -438,6 +444,7 @@ mlle_tool_file(const struct mlle_connections *connections,
     file_contents = calloc(1, sizeof(*file_contents));
     if (file_contents == NULL) {
         mlle_error_set_literal(error, 1, 1, "Out of memory.");
+        free(command.data);
         return NULL;
     }
     file_contents->file_size = command.length;
-- 
2.43.0


From cf9681f3466f9abaf2419860e48b9407b5fb2738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:11 +0000
Subject: [PATCH 25/36] fix: release the TLS context, key and certificate of a
 freed tool connection

---
 src/common/mlle_ssl.c    | 8 ++++++--
 src/tool/mlle_ssl_tool.c | 7 ++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/common/mlle_ssl.c b/src/common/mlle_ssl.c
index 90a4d92..105ebd6 100644
--- a/src/common/mlle_ssl.c
+++ b/src/common/mlle_ssl.c
@@ -112,8 +112,10 @@ SSL_CTX* create_CTX(char *private_key, int mode)
     // Connect private key to CTX.
     if (SSL_CTX_use_RSAPrivateKey(ctx, rsa) == 0)
     {
+        RSA_free(rsa);
         return 0;
     }
+    RSA_free(rsa);  // The CTX has its own reference.
 
     return ctx;
 }
@@ -220,7 +222,7 @@ X509 *generate_X509(RSA *rsa)
 
     // Copy RSA to EVP_KEY.
     pkey = EVP_PKEY_new();
-    EVP_PKEY_assign_RSA(pkey, rsa);
+    EVP_PKEY_set1_RSA(pkey, rsa);
 
     x509 = X509_new();
 
@@ -246,8 +248,10 @@ X509 *generate_X509(RSA *rsa)
     // Sign the certificate with our key.
     if ( !X509_sign(x509, pkey, EVP_sha1()) )
     {
-        return NULL;
+        X509_free(x509);
+        x509 = NULL;
     }
+    EVP_PKEY_free(pkey);
 
     return x509;
 }
diff --git a/src/tool/mlle_ssl_tool.c b/src/tool/mlle_ssl_tool.c
index 9599e7d..8ea227e 100644
--- a/src/tool/mlle_ssl_tool.c
+++ b/src/tool/mlle_ssl_tool.c
@@ -49,7 +49,7 @@ int ssl_setup_tool(struct mlle_connections **lve, struct mlle_error **error)
     BIO *bioWrite = NULL;
     BIO *bioRead = NULL;
     RSA *rsa = NULL;
-    X509 *x509;
+    X509 *x509 = NULL;
     int result = 0;
     DECLARE_PRIVATE_KEY_TOOL();
 
@@ -116,6 +116,11 @@ int ssl_setup_tool(struct mlle_connections **lve, struct mlle_error **error)
 cleanup:
     CLEAR_PRIVATE_KEY_TOOL();
 
+    // The SSL structure has its own references.
+    X509_free(x509);
+    RSA_free(rsa);
+    SSL_CTX_free(ctx);
+
     return result;
 }
 
-- 
2.43.0


From e1250636dcf2112bcc863ee65b6828377ca2eae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:26 +0000
Subject: [PATCH 26/36] fix: a long file name in a request can no longer
 overrun the LVE's stack

---
 src/decryptors/default/src/mlle_cr_decrypt.c | 34 ++++++++++++--------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index 18c35b0..b2685f8 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -71,9 +71,11 @@ void mlle_debug_log_key(const unsigned char* key) { }
 
 
 int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigned char* key) {
-    char path[MLLE_LONG_FILE_NAME_MAX];
-    char fullpath[MLLE_LONG_FILE_NAME_MAX];
-    size_t rel_path_len;
+    /* on the heap: this function calls itself once or twice per level of the path */
+    const size_t path_size = strlen(rel_file_path) + sizeof("/package.moc");
+    const size_t fullpath_size = strlen(context->basedir) + 1 + path_size;
+    char *path = NULL;
+    char *fullpath = NULL;
     int last_slash_index = 0;
     int i = 0;
     char ch;
@@ -91,7 +93,14 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
         mlle_debug_log_key(key);
     }
 
-    while (rel_file_path[i] && (i < MLLE_LONG_FILE_NAME_MAX)) {
+    path = malloc(path_size);
+    fullpath = malloc(fullpath_size);
+    if (path == NULL || fullpath == NULL) {
+        ret = -1;
+        goto cleanup;
+    }
+
+    while (rel_file_path[i]) {
         ch = rel_file_path[i];
         path[i] = ch;
         if ((ch == '/') || (ch == '\\')) {
@@ -99,7 +108,6 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
         }
         i++;
     }
-    rel_path_len = i;
     path[last_slash_index] = 0;
     
     if (last_slash_index) {
@@ -113,17 +121,13 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
     if (is_package_mo_file) {
         if (last_slash_index == 0) {
             /* top level does not have any mask */
-            return 1; /* request storing the key after decryption */
+            ret = 1; /* request storing the key after decryption */
         }
         else {
             /* Get a mask from parent dir */
-            if (mlle_demask_key(context, path, key) < 0) {
-                return -1;
-            }
-            else {
-                return 1;
-            }
+            ret = (mlle_demask_key(context, path, key) < 0) ? -1 : 1;
         }
+        goto cleanup;
     }
 
     /* check if we have a key in cache */
@@ -141,7 +145,7 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
            mlle_debug_log_key(key);
        }
 
-       return 0;
+       goto cleanup;
     }  
 
     /* if there is package.moc in this directory read key from it; otherwize return parent */
@@ -150,7 +154,7 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
     else
         memcpy(path + last_slash_index, "package.moc", 12); /* strlen("package.moc") + 1 = 12 */
 
-    snprintf(fullpath, sizeof(fullpath), "%s/%s", context->basedir, path);
+    snprintf(fullpath, fullpath_size, "%s/%s", context->basedir, path);
     file_buffer = mlle_io_read_file(fullpath, &file_size, &error);
     if (error) {
         if (stat(fullpath, &info) == 0 || (errno != ENOENT && errno != ENOTDIR)) {
@@ -194,6 +198,8 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
   cleanup:
     free(file_buffer);
     free(out_buffer);
+    free(path);
+    free(fullpath);
     mlle_error_free(&error);
     return ret;
 }
-- 
2.43.0


From f3ae3fb2c7e764cac6d1a4e228fd52b3cb1291bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:35 +0000
Subject: [PATCH 27/36] fix: after a reply that could not be read in full, the
 tool library no longer takes its rest for the replies to later calls

---
 src/common/mlle_utils.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/common/mlle_utils.c b/src/common/mlle_utils.c
index ccbd6ea..c6de5fa 100644
--- a/src/common/mlle_utils.c
+++ b/src/common/mlle_utils.c
@@ -147,6 +147,16 @@ int mlle_read_data(SSL *ssl, struct mlle_command *command, char *buffer, size_t
     return command->data == NULL && result == 1 ? 0 : result;
 }
 
+/*************************************************************
+ * A reply could not be read to its end: what is left of it must
+ * not be taken for the replies to later requests. All further
+ * reading and writing fails.
+ *************************************************************/
+static void mlle_abandon_connection(SSL *ssl)
+{
+    SSL_set_shutdown(ssl, SSL_SENT_SHUTDOWN | SSL_RECEIVED_SHUTDOWN);
+}
+
 /****************************************
  * Read a command.
  *
@@ -175,6 +185,7 @@ int mlle_read_command(SSL *ssl,
         ssl_get_error_string(errorCode, error_msg, ERROR_SIZE);
         mlle_error_set_literal(error, 1, 1, error_msg);
         free(messageBuffer);
+        mlle_abandon_connection(ssl);
         return 0;
     }
 
@@ -184,6 +195,7 @@ int mlle_read_command(SSL *ssl,
     {
         mlle_error_set_literal(error, 1, 1, "Failed to allocate memory for the token buffer");
         free(messageBuffer);
+        mlle_abandon_connection(ssl);
         return 0;
     }
     memcpy(token_buffer, messageBuffer, bytesRead);
@@ -206,6 +218,7 @@ int mlle_read_command(SSL *ssl,
             mlle_error_set_literal(error, 1, 1, error_msg);
         }
         free(messageBuffer);
+        mlle_abandon_connection(ssl);
         return 0;
     }
     assert(command->id != MLLE_PROTOCOL_UNDEFINED_CMD);
@@ -221,6 +234,7 @@ int mlle_read_command(SSL *ssl,
 
     if (dataResult < 0)
     {
+        mlle_abandon_connection(ssl);
         ssl_get_error_string(errorCode, error_msg, ERROR_SIZE);
         mlle_error_set_literal(error, 1, 1, error_msg);
         return 0;
-- 
2.43.0


From a06937662616aa682704fa4e038a274e2999d6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:44 +0000
Subject: [PATCH 28/36] fix: a tool whose standard descriptors are closed can
 start an LVE

---
 src/tool/mlle_spawn_posix.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/tool/mlle_spawn_posix.c b/src/tool/mlle_spawn_posix.c
index 569366e..1d39d84 100644
--- a/src/tool/mlle_spawn_posix.c
+++ b/src/tool/mlle_spawn_posix.c
@@ -36,6 +36,30 @@ static void close_pipe(int pipe_fd[2])
     close(pipe_fd[PIPE_WRITE_INDEX]);
 }
 
+/* Create a pipe whose ends are not among the standard descriptors: these may
+   be closed in the tool, and the child makes them its ends of the pipes. */
+static int open_pipe(int pipe_fd[2])
+{
+    int i;
+
+    if (pipe(pipe_fd) == -1) {
+        return -1;
+    }
+    for (i = 0; i < 2; i++) {
+        if (pipe_fd[i] <= STDERR_FILENO) {
+            int fd = fcntl(pipe_fd[i], F_DUPFD, STDERR_FILENO + 1);
+
+            if (fd == -1) {
+                close_pipe(pipe_fd);
+                return -1;
+            }
+            close(pipe_fd[i]);
+            pipe_fd[i] = fd;
+        }
+    }
+    return 0;
+}
+
 /********************************************************************
  * Setup pipes and start up connection to LVE (server) on Linux.
  * 
@@ -69,12 +93,12 @@ mlle_spawn(const char *exec_name,
     }
 
     fflush(NULL);
-    status = pipe(parent_to_child_pipe_fd);
+    status = open_pipe(parent_to_child_pipe_fd);
     if (status == -1) {
         mlle_error_set_literal(error, 1, 1, "pipe() failed.");
         return NULL;
     }
-    status = pipe(child_to_parent_pipe_fd);
+    status = open_pipe(child_to_parent_pipe_fd);
     if (status == -1) {
         mlle_error_set_literal(error, 1, 1, "pipe() failed.");
         close_pipe(parent_to_child_pipe_fd);
-- 
2.43.0


From 23a75e78f5fbbbf35a230e991af13c5f081c919d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:32 +0000
Subject: [PATCH 29/36] fix: decrypt_file decrypts files whose encrypted size
 exceeds 10 MB

---
 src/encrypt_decrypt/decrypt_file.c | 51 ++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/src/encrypt_decrypt/decrypt_file.c b/src/encrypt_decrypt/decrypt_file.c
index 81783b2..d002679 100644
--- a/src/encrypt_decrypt/decrypt_file.c
+++ b/src/encrypt_decrypt/decrypt_file.c
@@ -20,7 +20,9 @@
 #define _XOPEN_SOURCE 700
 #include <stddef.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
+#include <limits.h>
 #include <errno.h>
 
 #include <openssl/conf.h>
@@ -35,16 +37,44 @@
 #endif /* __INCLUDE_OPENSSL_APPLINK */
 #endif /* INCLUDE_OPENSSL_APPLINK */
 
-#define BUF_SIZE 10*1024*1024
-char in_buf[BUF_SIZE];
-char out_buf[BUF_SIZE];
+#define BUF_SIZE (1024*1024)
 extern FILE* mlle_log;
+
+/*
+ * Read everything from the current position to the end of the file. Returns an
+ * allocated buffer, or NULL if there is not enough memory. Read errors are left
+ * to the caller to check with ferror().
+ */
+static char* read_all(FILE* in, size_t* size)
+{
+    size_t capacity = BUF_SIZE;
+    char* buf = malloc(capacity);
+
+    *size = 0;
+    while (buf != NULL) {
+        char* larger;
+
+        *size += fread(buf + *size, 1, capacity - *size, in);
+        if (*size < capacity)
+            break;
+        capacity *= 2;
+        larger = realloc(buf, capacity);
+        if (larger == NULL)
+            free(buf);
+        buf = larger;
+    }
+    return buf;
+}
+
 int main(int argc, char** argv)
 {
     FILE* in = NULL;
     FILE* out = NULL;
     int res = 1;
-    int bytes = 0;
+    int bytes = -1;
+    size_t in_size = 0;
+    char* in_buf = NULL;
+    char* out_buf = NULL;
     mlle_cr_context *c;
     char path[4096];
 
@@ -77,14 +107,18 @@ int main(int argc, char** argv)
 
     /* Decrypt file. */
     if (in && out) {
-        bytes = (int) fread(in_buf, 1, BUF_SIZE, in);
+        in_buf = read_all(in, &in_size);
+        if (in_buf != NULL)
+            out_buf = malloc(in_size + 1);
 
         if (ferror(in)) {
             fprintf(stderr, "Could not read file %s. Error message was: %s\n", path, strerror(errno));
-            bytes = -1;
+        }
+        else if (in_buf == NULL || out_buf == NULL || in_size > INT_MAX) {
+            fprintf(stderr, "Not enough memory for file %s.\n", path);
         }
         else {
-            bytes = mlle_cr_decrypt(c, argv[2], in_buf, bytes, out_buf);
+            bytes = mlle_cr_decrypt(c, argv[2], in_buf, (int) in_size, out_buf);
         }
         if (bytes >= 0) {
             if (fwrite(out_buf , 1, bytes, out) == bytes)
@@ -95,6 +129,9 @@ int main(int argc, char** argv)
         }
     }
 
+    free(in_buf);
+    free(out_buf);
+
     /* Close files. */
     if (in != NULL)
         fclose(in);
-- 
2.43.0


From f3f8d544a4be6666f7785f29ef3dfda16f10e7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:32 +0000
Subject: [PATCH 30/36] fix: packagetool refuses files whose path is too long
 instead of copying them under a cut-off name

---
 src/packagetool/utils.c | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 5ebbfa5..d6e2f55 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -2070,6 +2070,26 @@ int copyDirectoryWin32(char *fromPath, char *toPath)
     return result;
 }
 
+#if defined linux || defined DARWIN
+/***********************************************************
+ * Build the path of an entry of a directory in a buffer of
+ * MAX_PATH_LENGTH characters. A path that does not fit is an
+ * error: cut off, it would name another file.
+ **********************************************************/
+static int joinPath(char *dest, const char *path, const char *name)
+{
+    size_t len = strlen(path);
+    const char *separator = (len > 0 && path[len - 1] == '/') ? "" : "/";
+
+    if (snprintf(dest, MAX_PATH_LENGTH, "%s%s%s", path, separator, name) >=
+        MAX_PATH_LENGTH) {
+        printf("Error: Path is too long: %s%s%s\n", path, separator, name);
+        return 0;
+    }
+    return 1;
+}
+#endif
+
 /***********************************************************
  * Copy a directory including files and subdirectory from
  * one location to another.
@@ -2099,12 +2119,9 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
                 strcmp(dir->d_name, ".library") != 0) {
                 // Build up our file path using the passed in
                 // [path] and the file/foldername we just found:
-                if (fromPath[(strlen(fromPath) - 1)] == '/') {
-                    snprintf(searchPath, MAX_PATH_LENGTH, "%s%s", fromPath,
-                             dir->d_name);
-                } else {
-                    snprintf(searchPath, MAX_PATH_LENGTH, "%s/%s", fromPath,
-                             dir->d_name);
+                if (!joinPath(searchPath, fromPath, dir->d_name)) {
+                    result = 0;
+                    break;
                 }
 
                 type = entryType(searchPath, dir);
@@ -2116,8 +2133,10 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
                 // Have we found a folder?
                 if (type == DT_DIR) {
 
-                    snprintf(searchPathTo, MAX_PATH_LENGTH, "%s/%s", toPath,
-                             dir->d_name);
+                    if (!joinPath(searchPathTo, toPath, dir->d_name)) {
+                        result = 0;
+                        break;
+                    }
                     // TODO Create folder name.
 
                     if (mkdir(searchPathTo, 0777) == -1) {
@@ -2138,8 +2157,8 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
                     // printf("Filnamn: %s\n", dir->d_name);
 
                     // file in new location.
-                    snprintf(folderName, MAX_PATH_LENGTH, "%s/%s", toPath, dir->d_name);
-                    if (!copyFile(searchPath, folderName)) {
+                    if (!joinPath(folderName, toPath, dir->d_name) ||
+                        !copyFile(searchPath, folderName)) {
                         result = 0;
                         break;
                     }
-- 
2.43.0


From 021a799b317ac271df3a3a51523df382c4276088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:32 +0000
Subject: [PATCH 31/36] fix: packagetool fails when no LVE could be put into an
 encrypted library

---
 src/packagetool/utils.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index d6e2f55..00128b8 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -508,6 +508,7 @@ int createCopyArray()
 int copyLVE()
 {
     int i = 0;
+    int copied = 0;
     char *dir_path = NULL;
     char *path = NULL;
     size_t path_len = 0;
@@ -544,6 +545,7 @@ int copyLVE()
 
             // Store filename for later use.
             snprintf(lveList[i], MAX_STRING, "%s", lve[i]);
+            ++copied;
         } else {
             // Otherwise store empty string.
             lveList[i] = '\0';
@@ -554,6 +556,12 @@ int copyLVE()
 
     free(dir_path);
 
+    // An encrypted library cannot be opened without an LVE.
+    if (copied == 0) {
+        printf("Error: No LVE found.\n");
+        return 0;
+    }
+
     return 1;
 }
 
-- 
2.43.0


From 9cd13ee77c1d1ac3eb50c7fd5a9880c71a21fe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:32 +0000
Subject: [PATCH 32/36] fix: a number that is only white space in a message is
 refused with a reason

---
 src/common/mlle_parse_command.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/common/mlle_parse_command.c b/src/common/mlle_parse_command.c
index ea0dd9d..388199b 100644
--- a/src/common/mlle_parse_command.c
+++ b/src/common/mlle_parse_command.c
@@ -110,9 +110,8 @@ parse_int(long *n,
 
     *n = 0;
     ints_scanned = sscanf(int_token, "%ld", n);
-    if (ints_scanned < 0) {
-        // XXX: Read error. What else? Check this!
-    } else if (ints_scanned == 0) {
+    if (ints_scanned <= 0) {
+        /* Negative: nothing but white space. */
         snprintf(error_msg, error_length,
                  "Parse error. Argument %s to command %s is not an integer.",
                  int_token, cmd_token);
-- 
2.43.0


From e2ae9acc9f2422fd6ceadd42314639fb86bdc8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:35 +0000
Subject: [PATCH 33/36] fix: a failing OpenSSL allocation is an error, not a
 crash

mlle_cr_decrypt, generate_X509, ssl_setup_tool and ssl_setup_lve used the
result of EVP_CIPHER_CTX_new, HMAC_CTX_new, EVP_PKEY_new, X509_new and
SSL_new without checking it.
---
 src/common/mlle_ssl.c                        | 8 ++++++--
 src/decryptors/default/src/mlle_cr_decrypt.c | 3 ++-
 src/lve/mlle_ssl_lve.c                       | 7 ++++++-
 src/tool/mlle_ssl_tool.c                     | 6 +++++-
 4 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/common/mlle_ssl.c b/src/common/mlle_ssl.c
index 105ebd6..e12f4da 100644
--- a/src/common/mlle_ssl.c
+++ b/src/common/mlle_ssl.c
@@ -222,9 +222,13 @@ X509 *generate_X509(RSA *rsa)
 
     // Copy RSA to EVP_KEY.
     pkey = EVP_PKEY_new();
-    EVP_PKEY_set1_RSA(pkey, rsa);
-
     x509 = X509_new();
+    if (pkey == NULL || x509 == NULL || !EVP_PKEY_set1_RSA(pkey, rsa))
+    {
+        X509_free(x509);
+        EVP_PKEY_free(pkey);
+        return NULL;
+    }
 
     // Serial number of certificate set to 1.
     ASN1_INTEGER_set(X509_get_serialNumber(x509), 1);
diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index b2685f8..859ae9e 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -287,6 +287,8 @@ int mlle_cr_decrypt(
     /* Init structures. */
     c_ctx = EVP_CIPHER_CTX_new(); 
     h_ctx = HMAC_CTX_new(); 
+    if (!c_ctx || !h_ctx)
+        goto error;
     EVP_CIPHER_CTX_init(c_ctx);
     HMAC_CTX_init(h_ctx);
 
@@ -362,7 +364,6 @@ int mlle_cr_decrypt(
     /* Cleanup. */
 error:
     CLEAR_MLLE_CR_KEY();
-    EVP_CIPHER_CTX_cleanup(c_ctx);
     EVP_CIPHER_CTX_free(c_ctx);
     HMAC_CTX_free(h_ctx);
     free(mac);
diff --git a/src/lve/mlle_ssl_lve.c b/src/lve/mlle_ssl_lve.c
index e7c3970..a2f5a5a 100644
--- a/src/lve/mlle_ssl_lve.c
+++ b/src/lve/mlle_ssl_lve.c
@@ -164,7 +164,12 @@ int ssl_setup_lve(struct mlle_lve_ctx *lve_ctx)
     }
 
     // Setup the SSL structure.
-    ssl = SSL_new(ctx);
+    if ( (ssl = SSL_new(ctx)) == NULL)
+    {
+        lve_ctx->tool_error_type = MLLE_PROTOCOL_SSL_ERROR;
+        lve_ctx->tool_error_msg = "SSL: Failed to create server SSL structure.";
+        goto cleanup;
+    }
 
     // Connect SSL with read and write BIO.
     SSL_set_bio(ssl, bioRead, bioWrite );
diff --git a/src/tool/mlle_ssl_tool.c b/src/tool/mlle_ssl_tool.c
index 8ea227e..d16239d 100644
--- a/src/tool/mlle_ssl_tool.c
+++ b/src/tool/mlle_ssl_tool.c
@@ -81,7 +81,11 @@ int ssl_setup_tool(struct mlle_connections **lve, struct mlle_error **error)
     }
 
     // Setup the SSL structure.
-    ssl = SSL_new(ctx);
+    if ( (ssl = SSL_new(ctx)) == NULL)
+    {
+        mlle_error_set(error, 1, 6, "SSL: Failed to create client SSL structure.");
+        goto cleanup;
+    }
 
     // Setup input/output using Pipe descriptors.
     bioWrite = BIO_new_fd((*lve)->fd_to_child, BIO_NOCLOSE);
-- 
2.43.0


From 870b53c1764f0912a46ef6162191c6285554dc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:19 +0000
Subject: [PATCH 34/36] fix: packagetool names the archive of a library with a
 long name in full

---
 src/packagetool/utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 00128b8..a244bb4 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -1435,7 +1435,7 @@ int createZipArchive()
     int result = 0;
     int status = 0;
     char *cwd = NULL;
-    char archiveName[MAX_STRING] = {'\0'};
+    char archiveName[MAX_PATH_LENGTH] = {'\0'};
     char pathToZipfile[MAX_PATH_LENGTH] = {'\0'};
     char currentDir[MAX_PATH_LENGTH] = {'\0'};
     int encrypted = 0;
@@ -1443,7 +1443,7 @@ int createZipArchive()
 
     // Get last folder name in library path. This will
     // be the name of the archive.
-    snprintf(archiveName, MAX_STRING, "%s.mol", getLibraryName());
+    snprintf(archiveName, MAX_PATH_LENGTH, "%s.mol", getLibraryName());
 
     // Is library encrypted. If so, don't put the .mo-files in the archive.
     if (usingEncryption()) {
-- 
2.43.0


From a230ee0310845bcda419f57565948478908e1f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:10 +0000
Subject: [PATCH 35/36] fix: the tool library releases what it had set up when
 a session cannot be started

---
 src/common/mlle_ssl.c    | 3 +++
 src/tool/mlle_ssl_tool.c | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/common/mlle_ssl.c b/src/common/mlle_ssl.c
index e12f4da..bebd254 100644
--- a/src/common/mlle_ssl.c
+++ b/src/common/mlle_ssl.c
@@ -100,12 +100,14 @@ SSL_CTX* create_CTX(char *private_key, int mode)
     if (SSL_CTX_set_cipher_list(ctx, "HIGH:!DSS:!aNULL@STRENGTH") == 0)
     {
         // Error setting ciphers to use.
+        SSL_CTX_free(ctx);
         return 0;
     }
 
     // Create RSA containing the private key.
     if ( (rsa = get_rsa(private_key)) == NULL)
     {
+        SSL_CTX_free(ctx);
         return 0;
     }
 
@@ -113,6 +115,7 @@ SSL_CTX* create_CTX(char *private_key, int mode)
     if (SSL_CTX_use_RSAPrivateKey(ctx, rsa) == 0)
     {
         RSA_free(rsa);
+        SSL_CTX_free(ctx);
         return 0;
     }
     RSA_free(rsa);  // The CTX has its own reference.
diff --git a/src/tool/mlle_ssl_tool.c b/src/tool/mlle_ssl_tool.c
index d16239d..cc407d3 100644
--- a/src/tool/mlle_ssl_tool.c
+++ b/src/tool/mlle_ssl_tool.c
@@ -110,16 +110,24 @@ int ssl_setup_tool(struct mlle_connections **lve, struct mlle_error **error)
 
     // Connect SSL with read and write BIO.
     SSL_set_bio(ssl, bioRead, bioWrite );
+    bioRead = NULL;
+    bioWrite = NULL;
 
     // Run new handshakes in the background.
     SSL_set_mode(ssl, SSL_MODE_AUTO_RETRY);
 
     (*lve)->ssl = ssl;
+    ssl = NULL;
     result = 1;
 
 cleanup:
     CLEAR_PRIVATE_KEY_TOOL();
 
+    // Not part of a connection, since the setup failed.
+    BIO_free(bioWrite);
+    BIO_free(bioRead);
+    SSL_free(ssl);
+
     // The SSL structure has its own references.
     X509_free(x509);
     RSA_free(rsa);
-- 
2.43.0


From f6cc7086b31df59d28321ef7d0cef45f5d320cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:10 +0000
Subject: [PATCH 36/36] fix: encrypt_file and decrypt_file refuse file names
 that are too long instead of cutting them off or overrunning a buffer

---
 src/encrypt_decrypt/decrypt_file.c | 5 +++++
 src/encrypt_decrypt/encrypt_file.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/encrypt_decrypt/decrypt_file.c b/src/encrypt_decrypt/decrypt_file.c
index d002679..6c90fd0 100644
--- a/src/encrypt_decrypt/decrypt_file.c
+++ b/src/encrypt_decrypt/decrypt_file.c
@@ -85,6 +85,11 @@ int main(int argc, char** argv)
         return 1;
     }
 
+    if (strlen(argv[1]) + 1 + strlen(argv[2]) >= sizeof(path)) {
+        fprintf(stderr, "The name of the encrypted file is too long: %s/%s\n", argv[1], argv[2]);
+        return 1;
+    }
+
     c = mlle_cr_create(argv[1]);
     if (NULL == c) {
         fprintf(stderr, "Could not create decryption context object\n");
diff --git a/src/encrypt_decrypt/encrypt_file.c b/src/encrypt_decrypt/encrypt_file.c
index f3370fe..4c20b21 100644
--- a/src/encrypt_decrypt/encrypt_file.c
+++ b/src/encrypt_decrypt/encrypt_file.c
@@ -69,6 +69,11 @@ int main(int argc, char** argv)
         fprintf(stderr, "Could not open file %s for reading. Error message was: %s\n", argv[1], strerror(errno));
         exit(1);
     }
+    if (argv[2][0] == '\0' || strlen(argv[2]) >= sizeof(encrypted)
+        || (argc == 4 && strlen(argv[3]) + 1 + strlen(argv[2]) >= sizeof(pathdest))) {
+        fprintf(stderr, "The name of the encrypted file is empty or too long: %s\n", argv[2]);
+        exit(2);
+    }
     strcpy(encrypted, argv[2]);
     if (argc == 4) {
         destdir = argv[3];
-- 
2.43.0

