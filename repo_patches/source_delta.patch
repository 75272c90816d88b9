From dbb0ec346e4ad2fe4f268f8faf8209b6fa8a8594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 1/8] fix: compare whole BIP32 paths, not their first bytes, in
 bip32_path_is_equal

---
 src/common/bip32_ext.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/bip32_ext.h b/src/common/bip32_ext.h
index 9436c99..4a8f071 100644
--- a/src/common/bip32_ext.h
+++ b/src/common/bip32_ext.h
@@ -26,7 +26,7 @@ static inline bool bip32_path_is_equal(const uint32_t *bip32_path_1,
                                        const uint32_t *bip32_path_2,
                                        uint8_t bip32_path_2_len) {
     return bip32_path_1_len == bip32_path_2_len &&
-           memcmp(bip32_path_1, bip32_path_2, bip32_path_1_len) == 0;
+           memcmp(bip32_path_1, bip32_path_2, bip32_path_1_len * sizeof(uint32_t)) == 0;
 }
 
 static inline bool bip32_path_same_account(const uint32_t *bip32_path_1,
-- 
2.43.0


From 76ff946b1b13063e452d38c76c303fe578a3a65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 2/8] fix: compare the three account components in
 bip32_path_same_account

---
 src/common/bip32_ext.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/bip32_ext.h b/src/common/bip32_ext.h
index 4a8f071..ed41db4 100644
--- a/src/common/bip32_ext.h
+++ b/src/common/bip32_ext.h
@@ -34,5 +34,5 @@ static inline bool bip32_path_same_account(const uint32_t *bip32_path_1,
                                            const uint32_t *bip32_path_2,
                                            uint8_t bip32_path_2_len) {
     return bip32_path_1_len >= 3 && bip32_path_2_len >= 3 &&
-           memcmp(bip32_path_1, bip32_path_2, 3) == 0;
+           memcmp(bip32_path_1, bip32_path_2, 3 * sizeof(uint32_t)) == 0;
 }
\ No newline at end of file
-- 
2.43.0


From 3a940e98d86144fb830c5d18a9851c93afc3c20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 3/8] fix: refuse a new output box before the previous one is
 complete

---
 src/ergo/tx_ser_full.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ergo/tx_ser_full.c b/src/ergo/tx_ser_full.c
index fea3889..57c6f1b 100644
--- a/src/ergo/tx_ser_full.c
+++ b/src/ergo/tx_ser_full.c
@@ -133,6 +133,7 @@ data_inputs_finished(ergo_tx_serializer_full_context_t* context) {
         return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_HASHER);
     }
     context->state = ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED;
+    context->box_ctx.state = ERGO_TX_SERIALIZER_BOX_STATE_FINISHED;
     return ERGO_TX_SERIALIZER_FULL_RES_OK;
 }
 
@@ -297,6 +298,9 @@ ergo_tx_serializer_full_result_e ergo_tx_serializer_full_add_box(
     uint8_t tokens_count,
     uint32_t registers_size) {
     CHECK_PROPER_STATE(context, ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED);
+    if (!ergo_tx_serializer_box_is_finished(&context->box_ctx)) {
+        return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_BAD_STATE);
+    }
     if (context->outputs_count == 0) {
         return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_TOO_MANY_OUTPUTS);
     }
-- 
2.43.0


From 871bc5912b0f445d8b23da89839d14c088f5e466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 4/8] fix: never give the previous session number to a new
 session

---
 src/commands/attestinput/ainpt_handler.c  |  2 +-
 src/commands/attestinput/ainpt_response.c |  1 +
 src/commands/signtx/stx_handler.c         |  2 +-
 src/commands/signtx/stx_response.c        |  2 ++
 src/context.h                             | 15 +++++++++++++++
 5 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/commands/attestinput/ainpt_handler.c b/src/commands/attestinput/ainpt_handler.c
index f3f946d..bc0745d 100644
--- a/src/commands/attestinput/ainpt_handler.c
+++ b/src/commands/attestinput/ainpt_handler.c
@@ -106,7 +106,7 @@ static inline int handle_init(attest_input_ctx_t *ctx,
     ergo_tx_serializer_box_set_callbacks(&ctx->box, NULL, &box_token_cb, NULL, (void *) ctx);
 
     ctx->state = ATTEST_INPUT_STATE_INITIALIZED;
-    ctx->session = session_id_new_random(ctx->session);
+    ctx->session = session_id_new_random(app_last_session_id());
 
     if (is_known_application(app_session_id, app_session_id_in)) {
         ctx->state = ATTEST_INPUT_STATE_APPROVED;
diff --git a/src/commands/attestinput/ainpt_response.c b/src/commands/attestinput/ainpt_response.c
index 23a063c..9f4f4eb 100755
--- a/src/commands/attestinput/ainpt_response.c
+++ b/src/commands/attestinput/ainpt_response.c
@@ -64,6 +64,7 @@ int send_response_attested_input_frame_count(uint8_t tokens_count) {
 }
 
 int send_response_attested_input_session_id(uint8_t session_id) {
+    app_set_last_session_id(session_id);
     RW_BUFFER_FROM_VAR_FULL(buf, session_id);
     return res_ok_data(&buf);
 }
diff --git a/src/commands/signtx/stx_handler.c b/src/commands/signtx/stx_handler.c
index 0a27302..86f9ea1 100644
--- a/src/commands/signtx/stx_handler.c
+++ b/src/commands/signtx/stx_handler.c
@@ -76,7 +76,7 @@ static inline int handle_init_p2pk(sign_transaction_ctx_t *ctx,
 
     ctx->operation = SIGN_TRANSACTION_OPERATION_P2PK;
     ctx->state = SIGN_TRANSACTION_STATE_INITIALIZED;
-    ctx->session = session_id_new_random(ctx->session);
+    ctx->session = session_id_new_random(app_last_session_id());
 
     // switch between operations if more will be added
     CHECK_CALL_RESULT_SW_OK(ctx,
diff --git a/src/commands/signtx/stx_response.c b/src/commands/signtx/stx_response.c
index 8f0ab3f..69b1f75 100755
--- a/src/commands/signtx/stx_response.c
+++ b/src/commands/signtx/stx_response.c
@@ -1,7 +1,9 @@
 #include "stx_response.h"
+#include "../../context.h"
 #include "../../helpers/response.h"
 
 int send_response_sign_transaction_session_id(uint8_t session_id) {
+    app_set_last_session_id(session_id);
     RW_BUFFER_FROM_VAR_FULL(buf, session_id);
     return res_ok_data(&buf);
 }
diff --git a/src/context.h b/src/context.h
index 88cda12..436f042 100644
--- a/src/context.h
+++ b/src/context.h
@@ -14,6 +14,7 @@ typedef struct {
     uint8_t session_key[SESSION_KEY_LEN];
     command_e current_command;  /// current command
     bool is_ui_busy;
+    uint8_t last_session_id;  /// last session number given to a host
     union {
         attest_input_ctx_t attest_input;
         sign_transaction_ctx_t sign_tx;
@@ -62,6 +63,20 @@ static inline const uint8_t* app_session_key(void) {
     return G_app_context.session_key;
 }
 
+/**
+ * Get last session number given to a host.
+ */
+static inline uint8_t app_last_session_id(void) {
+    return G_app_context.last_session_id;
+}
+
+/**
+ * Set last session number given to a host.
+ */
+static inline void app_set_last_session_id(uint8_t id) {
+    G_app_context.last_session_id = id;
+}
+
 /**
  * Get current command key.
  */
-- 
2.43.0


From fc3bfcd9600fb592958afedccbc4c07b788cc367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 5/8] fix: refuse version and name queries that carry data

---
 src/apdu_dispatcher.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/apdu_dispatcher.c b/src/apdu_dispatcher.c
index b81a665..f786985 100644
--- a/src/apdu_dispatcher.c
+++ b/src/apdu_dispatcher.c
@@ -26,11 +26,17 @@ int apdu_dispatcher(const command_t *cmd) {
             if (cmd->p1 != 0 || cmd->p2 != 0) {
                 return io_send_sw(SW_WRONG_P1P2);
             }
+            if (cmd->lc != 0) {
+                return io_send_sw(SW_WRONG_APDU_DATA_LENGTH);
+            }
             return handler_get_version();
         case CMD_GET_APP_NAME:
             if (cmd->p1 != 0 || cmd->p2 != 0) {
                 return io_send_sw(SW_WRONG_P1P2);
             }
+            if (cmd->lc != 0) {
+                return io_send_sw(SW_WRONG_APDU_DATA_LENGTH);
+            }
             return handler_get_app_name();
         case CMD_GET_EXTENDED_PUBLIC_KEY:
             if (cmd->p1 == 0 || cmd->p1 > 2 || cmd->p2 > 0) {
-- 
2.43.0


From 5b969e7a88e33af58a7fdbf2c9cf09e3ef141e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 6/8] fix: show a minted amount of 2^63 without signed overflow

---
 src/commands/signtx/stx_ui.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/signtx/stx_ui.c b/src/commands/signtx/stx_ui.c
index a8e26de..c79cd60 100644
--- a/src/commands/signtx/stx_ui.c
+++ b/src/commands/signtx/stx_ui.c
@@ -334,7 +334,7 @@ static NOINLINE uint16_t ui_stx_display_tx_state(uint8_t screen,
                 int64_t value = ctx->amounts->tokens[token_idx];
                 if (value < 0) {  // output > inputs
                     STRING_ADD_STATIC_TEXT(text, text_len, "Minting: ");
-                    format_u64(text, text_len, -value);
+                    format_u64(text, text_len, -(uint64_t) value);
                 } else {  // inputs > outputs
                     STRING_ADD_STATIC_TEXT(text, text_len, "Burning: ");
                     format_u64(text, text_len, value);
-- 
2.43.0


From 7b97f13a9e25da256fb621a92650aba22dfca5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 7/8] fix: clear the product with the private key when signing
 fails

---
 src/ergo/schnorr.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ergo/schnorr.c b/src/ergo/schnorr.c
index b703311..8048331 100644
--- a/src/ergo/schnorr.c
+++ b/src/ergo/schnorr.c
@@ -103,16 +103,16 @@ bool ergo_secp256k1_schnorr_p2pk_sign_finish(uint8_t signature[static ERGO_SIGNA
     if (cx_math_is_zero(buf, CX_BLAKE2B_256_SIZE)) return false;
 
     // z = c * secret + key
-    if (cx_math_multm_no_throw(buf, buf, secret, PIC(SECP256K1_N), PRIVATE_KEY_LEN) != 0)
-        return false;
-    if (cx_math_addm_no_throw(signature + ERGO_SOUNDNESS_BYTES,
+    bool result =
+        cx_math_multm_no_throw(buf, buf, secret, PIC(SECP256K1_N), PRIVATE_KEY_LEN) == 0 &&
+        cx_math_addm_no_throw(signature + ERGO_SOUNDNESS_BYTES,
                               key,
                               buf,
                               PIC(SECP256K1_N),
-                              PRIVATE_KEY_LEN) != 0)
-        return false;
+                              PRIVATE_KEY_LEN) == 0;
 
+    // always clear c * secret
     explicit_bzero(buf, sizeof(buf));
 
-    return true;
+    return result;
 }
-- 
2.43.0


From e9bf2378dade6f255d5683e9454f771ad45315c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:40 +0000
Subject: [PATCH 8/8] fix: show long BIP32 paths in full

---
 src/commands/signtx/stx_types.h | 8 ++++----
 src/constants.h                 | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/commands/signtx/stx_types.h b/src/commands/signtx/stx_types.h
index 58ea112..cb3fced 100644
--- a/src/commands/signtx/stx_types.h
+++ b/src/commands/signtx/stx_types.h
@@ -41,8 +41,8 @@ typedef struct {
 } sign_transaction_ui_aprove_ctx_t;
 
 typedef struct {
-    char title[20];  // dynamic screen title
-    char text[70];   // dynamic screen text
+    char title[20];                   // dynamic screen title
+    char text[MAX_BIP32_STRING_LEN];  // dynamic screen text
     uint8_t network_id;
     const sign_transaction_output_info_ctx_t *output;
     sign_transaction_bip32_path_t *last_approved_change;
@@ -55,8 +55,8 @@ typedef uint16_t (
 typedef void (*ui_sign_transaction_operation_send_response_cb)(void *);
 
 typedef struct {
-    char title[20];  // dynamic screen title
-    char text[70];   // dynamic screen text
+    char title[20];                   // dynamic screen title
+    char text[MAX_BIP32_STRING_LEN];  // dynamic screen text
     uint8_t op_screen_count;
     ui_sign_transaction_operation_show_screen_cb op_screen_cb;
     ui_sign_transaction_operation_send_response_cb op_response_cb;
diff --git a/src/constants.h b/src/constants.h
index cad8ad5..72fc52e 100644
--- a/src/constants.h
+++ b/src/constants.h
@@ -96,6 +96,6 @@
 #define MAX_DATA_CHUNK_LEN 255
 
 /**
- * Max length of BIP32 path string
+ * Max length of BIP32 path string (10 components of up to 11 characters with separators and \0)
  */
-#define MAX_BIP32_STRING_LEN 60
\ No newline at end of file
+#define MAX_BIP32_STRING_LEN 120
\ No newline at end of file
-- 
2.43.0

