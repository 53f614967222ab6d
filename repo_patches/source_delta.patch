From f5454aa84ae716b4d37dba840cfa416d728c9a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 01/52] fix: cipher results and keys survive allocation failure
 without crash, leak or truncated copy

---
 src/wickrcrypto/src/cipher.c | 44 ++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/wickrcrypto/src/cipher.c b/src/wickrcrypto/src/cipher.c
index b9d669b..3eb8bdd 100644
--- a/src/wickrcrypto/src/cipher.c
+++ b/src/wickrcrypto/src/cipher.c
@@ -31,9 +31,12 @@ wickr_cipher_result_t *wickr_cipher_result_create(wickr_cipher_t cipher, wickr_b
     }
     
     wickr_cipher_result_t *new_result = wickr_alloc_zero(sizeof(wickr_cipher_result_t));
-    new_result->cipher = cipher;
     
+    if (!new_result) {
+        return NULL;
+    }
     
+    new_result->cipher = cipher;
     new_result->iv = iv;
     new_result->cipher_text = cipher_text;
     new_result->auth_tag = auth_tag;
@@ -55,7 +58,20 @@ wickr_cipher_result_t *wickr_cipher_result_copy(const wickr_cipher_result_t *res
         cipher_text_copy = NULL;
     wickr_buffer_t *auth_tag_copy = result->auth_tag ? wickr_buffer_copy(result->auth_tag) : NULL;
     
-    return wickr_cipher_result_create(result->cipher, iv_copy, cipher_text_copy, auth_tag_copy);
+    wickr_cipher_result_t *result_copy = NULL;
+    
+    /* Never return a copy that is missing a component of the original */
+    if ((cipher_text_copy || !result->cipher_text) && (auth_tag_copy || !result->auth_tag)) {
+        result_copy = wickr_cipher_result_create(result->cipher, iv_copy, cipher_text_copy, auth_tag_copy);
+    }
+    
+    if (!result_copy) {
+        wickr_buffer_destroy(&iv_copy);
+        wickr_buffer_destroy(&cipher_text_copy);
+        wickr_buffer_destroy(&auth_tag_copy);
+    }
+    
+    return result_copy;
 }
 
 void wickr_cipher_result_destroy(wickr_cipher_result_t **result)
@@ -160,7 +176,16 @@ wickr_cipher_result_t *wickr_cipher_result_from_buffer(const wickr_buffer_t *buf
     } else {
         cipher_text = NULL;
     }
-    return wickr_cipher_result_create(*mode, iv, cipher_text, auth_tag);
+    
+    wickr_cipher_result_t *result = wickr_cipher_result_create(*mode, iv, cipher_text, auth_tag);
+    
+    if (!result) {
+        wickr_buffer_destroy(&iv);
+        wickr_buffer_destroy(&cipher_text);
+        wickr_buffer_destroy(&auth_tag);
+    }
+    
+    return result;
 }
 
 wickr_cipher_key_t *wickr_cipher_key_create(wickr_cipher_t cipher, wickr_buffer_t *key_data)
@@ -170,6 +195,11 @@ wickr_cipher_key_t *wickr_cipher_key_create(wickr_cipher_t cipher, wickr_buffer_
     }
     
     wickr_cipher_key_t *new_key = wickr_alloc_zero(sizeof(wickr_cipher_key_t));
+    
+    if (!new_key) {
+        return NULL;
+    }
+    
     new_key->cipher = cipher;
     new_key->key_data = key_data;
     
@@ -241,5 +271,11 @@ wickr_cipher_key_t *wickr_cipher_key_from_buffer(const wickr_buffer_t *buffer)
         return NULL;
     }
     
-    return wickr_cipher_key_create(*cipher, key_buffer);
+    wickr_cipher_key_t *key = wickr_cipher_key_create(*cipher, key_buffer);
+    
+    if (!key) {
+        wickr_buffer_destroy_zero(&key_buffer);
+    }
+    
+    return key;
 }
-- 
2.43.0


From f707b78837a7ca7380f50d80fabb0371bdd5e01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 02/52] fix: ecdsa results survive allocation failure without
 crash, leak or a signature missing its padding

---
 src/wickrcrypto/src/ecdsa.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/ecdsa.c b/src/wickrcrypto/src/ecdsa.c
index f55267a..1c2b994 100644
--- a/src/wickrcrypto/src/ecdsa.c
+++ b/src/wickrcrypto/src/ecdsa.c
@@ -12,6 +12,11 @@ wickr_ecdsa_result_t *wickr_ecdsa_result_create(wickr_ec_curve_t curve, wickr_di
     }
     
     wickr_ecdsa_result_t *new_result = wickr_alloc_zero(sizeof(wickr_ecdsa_result_t));
+    
+    if (!new_result) {
+        return NULL;
+    }
+    
     new_result->curve = curve;
     new_result->digest_mode = digest_mode;
     new_result->sig_data = sig_data;
@@ -45,7 +50,13 @@ wickr_ecdsa_result_t *wickr_ecdsa_result_create_from_buffer(const wickr_buffer_t
         return NULL;
     }
     
-    return wickr_ecdsa_result_create(*curve, *digest_mode, key_data);
+    wickr_ecdsa_result_t *result = wickr_ecdsa_result_create(*curve, *digest_mode, key_data);
+    
+    if (!result) {
+        wickr_buffer_destroy(&key_data);
+    }
+    
+    return result;
 }
 
 wickr_buffer_t *wickr_ecdsa_result_serialize(const wickr_ecdsa_result_t *result)
@@ -67,6 +78,10 @@ wickr_buffer_t *wickr_ecdsa_result_serialize(const wickr_ecdsa_result_t *result)
     pad_count_buffer.length = sizeof(uint8_t);
     
     wickr_buffer_t *pad_buffer = wickr_buffer_create_empty_zero(pad_count);
+    
+    if (!pad_buffer && pad_count != 0) {
+        return NULL;
+    }
 
     wickr_buffer_t *buffers[] = { &meta_buffer, &pad_count_buffer, pad_buffer, result->sig_data };
     
@@ -84,7 +99,13 @@ wickr_ecdsa_result_t *wickr_ecdsa_result_copy(const wickr_ecdsa_result_t *source
     
     wickr_buffer_t *sig_data_copy = wickr_buffer_copy(source->sig_data);
     
-    return wickr_ecdsa_result_create(source->curve, source->digest_mode, sig_data_copy);
+    wickr_ecdsa_result_t *result = wickr_ecdsa_result_create(source->curve, source->digest_mode, sig_data_copy);
+    
+    if (!result) {
+        wickr_buffer_destroy(&sig_data_copy);
+    }
+    
+    return result;
 }
 
 void wickr_ecdsa_result_destroy(wickr_ecdsa_result_t **result)
-- 
2.43.0


From b474de3ff12ad74cf5f69efa470e4a98ef770f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 03/52] fix: release the IV factory when a stream context
 cannot be allocated

---
 src/wickrcrypto/src/stream_ctx.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/stream_ctx.c b/src/wickrcrypto/src/stream_ctx.c
index 7baa2eb..4fdfdfe 100644
--- a/src/wickrcrypto/src/stream_ctx.c
+++ b/src/wickrcrypto/src/stream_ctx.c
@@ -23,6 +23,7 @@ wickr_stream_ctx_t *wickr_stream_ctx_create(const wickr_crypto_engine_t engine,
     wickr_stream_ctx_t *stream_cipher = wickr_alloc_zero(sizeof(wickr_stream_ctx_t));
     
     if (!stream_cipher) {
+        wickr_stream_iv_destroy(&iv_factory);
         return NULL;
     }
     
-- 
2.43.0


From 0a224311f3ea2cd21432377b810ef796b8e13972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 04/52] fix: ec keys survive allocation failure without crash
 or leak, NULL key has no fixed length encoding

---
 src/wickrcrypto/src/eckey.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/eckey.c b/src/wickrcrypto/src/eckey.c
index 015cbac..8ae3287 100644
--- a/src/wickrcrypto/src/eckey.c
+++ b/src/wickrcrypto/src/eckey.c
@@ -10,6 +10,11 @@ wickr_ec_key_t *wickr_ec_key_create(wickr_ec_curve_t curve, wickr_buffer_t *pub_
     }
     
     wickr_ec_key_t *new_key = wickr_alloc_zero(sizeof(wickr_ec_key_t));
+    
+    if (!new_key) {
+        return NULL;
+    }
+    
     new_key->curve = curve;
     new_key->pub_data = pub_data;
     new_key->pri_data = pri_data;
@@ -40,18 +45,29 @@ wickr_ec_key_t *wickr_ec_key_copy(const wickr_ec_key_t *source)
         }
     }
     
-    return wickr_ec_key_create(source->curve, pub_key_copy, pri_key_copy);
+    wickr_ec_key_t *key_copy = wickr_ec_key_create(source->curve, pub_key_copy, pri_key_copy);
+    
+    if (!key_copy) {
+        wickr_buffer_destroy(&pub_key_copy);
+        wickr_buffer_destroy_zero(&pri_key_copy);
+    }
+    
+    return key_copy;
 }
 
 wickr_buffer_t *wickr_ec_key_get_pubdata_fixed_len(const wickr_ec_key_t *key)
 {
+    if (!key) {
+        return NULL;
+    }
+    
     /* If no adjustments are necessary, just return a new copy of the pub key data as is */
     if (key->pub_data->length == key->curve.max_pub_size) {
         return wickr_buffer_copy(key->pub_data);
     }
     
     /* Verify that we don't have a corrupt key with a length greater than the maximum */
-    if (!key || key->pub_data->length > key->curve.max_pub_size) {
+    if (key->pub_data->length > key->curve.max_pub_size) {
         return NULL;
     }
     
-- 
2.43.0


From 2b4f0964d3a39fba05c2a906a5dbc9709b257f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 05/52] fix: packet metadata creation returns NULL when
 allocation fails

---
 src/wickrcrypto/src/packet_meta.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/packet_meta.c b/src/wickrcrypto/src/packet_meta.c
index 4262b87..b0fe8c8 100644
--- a/src/wickrcrypto/src/packet_meta.c
+++ b/src/wickrcrypto/src/packet_meta.c
@@ -9,6 +9,11 @@ wickr_packet_meta_t *wickr_packet_meta_create(wickr_ephemeral_info_t ephemeralit
     }
     
     wickr_packet_meta_t *new_packet_meta = wickr_alloc_zero(sizeof(wickr_packet_meta_t));
+    
+    if (!new_packet_meta) {
+        return NULL;
+    }
+    
     new_packet_meta->channel_tag = channel_tag;
     new_packet_meta->content_type = content_type;
     new_packet_meta->ephemerality_settings = ephemerality_settings;
-- 
2.43.0


From dc06dc96b96d0a5b20e8c624cdb4176f2d827f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 06/52] fix: stream key serialization and parsing survive
 allocation failure and invalid fields without crash or leak

---
 src/wickrcrypto/src/stream_key.c      | 2 +-
 src/wickrcrypto/src/stream_key_priv.c | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/stream_key.c b/src/wickrcrypto/src/stream_key.c
index 04a339e..ab8979e 100644
--- a/src/wickrcrypto/src/stream_key.c
+++ b/src/wickrcrypto/src/stream_key.c
@@ -110,7 +110,7 @@ wickr_buffer_t *wickr_stream_key_serialize(const wickr_stream_key_t *key)
     
     Wickr__Proto__StreamKey *proto_key = wickr_stream_key_to_proto(key);
     
-    if (!key) {
+    if (!proto_key) {
         return NULL;
     }
     
diff --git a/src/wickrcrypto/src/stream_key_priv.c b/src/wickrcrypto/src/stream_key_priv.c
index b8ac43f..57c0edf 100644
--- a/src/wickrcrypto/src/stream_key_priv.c
+++ b/src/wickrcrypto/src/stream_key_priv.c
@@ -35,6 +35,7 @@ Wickr__Proto__StreamKey *wickr_stream_key_to_proto(const wickr_stream_key_t *key
     
     if (!wickr_buffer_to_protobytes(&proto->cipher_key, key_buffer)) {
         wickr_buffer_destroy_zero(&key_buffer);
+        wickr_free(proto);
         return NULL;
     }
     
@@ -100,6 +101,7 @@ wickr_stream_key_t *wickr_stream_key_create_from_proto(const Wickr__Proto__Strea
     if (!stream_key) {
         wickr_cipher_key_destroy(&cipher_key);
         wickr_buffer_destroy_zero(&evo_key);
+        wickr_buffer_destroy(&user_data);
         return NULL;
     }
     
-- 
2.43.0


From c230b741beed7ea74e8d9f8c1def4f8173919a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:53 +0000
Subject: [PATCH 07/52] fix: copying an identity fails if its signature cannot
 be copied

---
 src/wickrcrypto/src/identity.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wickrcrypto/src/identity.c b/src/wickrcrypto/src/identity.c
index e215af8..171f9e1 100644
--- a/src/wickrcrypto/src/identity.c
+++ b/src/wickrcrypto/src/identity.c
@@ -91,6 +91,12 @@ wickr_identity_t *wickr_identity_copy(const wickr_identity_t *source)
     
     wickr_ecdsa_result_t *sig_copy = wickr_ecdsa_result_copy(source->signature);
     
+    if (source->signature && !sig_copy) {
+        wickr_buffer_destroy(&identifier_copy);
+        wickr_ec_key_destroy(&sig_key_copy);
+        return NULL;
+    }
+    
     wickr_identity_t *copy = wickr_identity_create(source->type, identifier_copy, sig_key_copy, sig_copy);
     
     if (!copy) {
-- 
2.43.0


From 2b07e2ddd4f2e4a3e57848dbbebb7b3af5e7dfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:30 +0000
Subject: [PATCH 08/52] fix: release the identity chain message when a node
 message cannot be allocated

---
 src/wickrcrypto/src/node_priv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/node_priv.c b/src/wickrcrypto/src/node_priv.c
index 8a3adaf..3920203 100644
--- a/src/wickrcrypto/src/node_priv.c
+++ b/src/wickrcrypto/src/node_priv.c
@@ -41,6 +41,7 @@ Wickr__Proto__Node *wickr_node_to_proto(const wickr_node_t *node)
     
     if (!proto_node) {
         wickr_ephemeral_keypair_proto_free(ephemeral_keypair);
+        wickr_identity_chain_proto_free(identity_chain);
         return NULL;
     }
     
-- 
2.43.0


From f0da12cdeb1c102802b14c3d4149640ed05123ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:30 +0000
Subject: [PATCH 09/52] fix: the status cache of a node covers its identity
 chain

---
 src/wickrcrypto/src/node_priv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/node_priv.c b/src/wickrcrypto/src/node_priv.c
index 3920203..8be1d77 100644
--- a/src/wickrcrypto/src/node_priv.c
+++ b/src/wickrcrypto/src/node_priv.c
@@ -123,6 +123,7 @@ wickr_buffer_t *wickr_node_make_status_cache(const wickr_node_t *node,
     wickr_buffer_t *buffers[] = {
         node->ephemeral_keypair->ec_key->pub_data,
         node->ephemeral_keypair->signature->sig_data,
+        node->id_chain->_status_cache,
         &status_buffer
     };
     
-- 
2.43.0


From cdeec173e0e1d631a87db222b63b388a70074e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 10/52] fix: signing a transport packet again replaces its
 signature instead of signing over it

---
 src/wickrcrypto/src/transport_packet.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/wickrcrypto/src/transport_packet.c b/src/wickrcrypto/src/transport_packet.c
index 516b4a6..1368af7 100644
--- a/src/wickrcrypto/src/transport_packet.c
+++ b/src/wickrcrypto/src/transport_packet.c
@@ -292,10 +292,14 @@ bool wickr_transport_packet_sign(wickr_transport_packet_t *pkt, const wickr_cryp
     }
     
     wickr_transport_packet_mac_type old_mac_type = pkt->meta.mac_type;
+    wickr_buffer_t *old_mac = pkt->mac;
     
+    /* A previous signature is replaced, it is not a part of the data to sign */
     pkt->meta.mac_type = new_mac_type;
+    pkt->mac = NULL;
     wickr_buffer_t *data_to_sign = wickr_transport_packet_serialize(pkt);
     pkt->meta.mac_type = old_mac_type;
+    pkt->mac = old_mac;
     
     if (!data_to_sign) {
         return false;
@@ -315,6 +319,9 @@ bool wickr_transport_packet_sign(wickr_transport_packet_t *pkt, const wickr_cryp
         return false;
     }
     
+    wickr_buffer_destroy(&pkt->mac);
+    wickr_buffer_destroy(&pkt->network_buffer);
+    
     pkt->mac = signature_buffer;
     pkt->meta.mac_type = new_mac_type;
     
-- 
2.43.0


From 919fa85507cf5779901340eacb87eccd65f95c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 11/52] fix: key exchange creation returns NULL when allocation
 fails

---
 src/wickrcrypto/src/key_exchange.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/key_exchange.c b/src/wickrcrypto/src/key_exchange.c
index b61bfeb..ce7e375 100644
--- a/src/wickrcrypto/src/key_exchange.c
+++ b/src/wickrcrypto/src/key_exchange.c
@@ -16,6 +16,11 @@ wickr_key_exchange_t *wickr_key_exchange_create(wickr_buffer_t *exchange_id,
     }
     
     wickr_key_exchange_t *new_exchange = wickr_alloc_zero(sizeof(wickr_key_exchange_t));
+    
+    if (!new_exchange) {
+        return NULL;
+    }
+    
     new_exchange->exchange_id = exchange_id;
     new_exchange->key_id = key_id;
     new_exchange->exchange_ciphertext = exchange_ciphertext;
-- 
2.43.0


From 04271a0cfaeeb69c56e714b6ee344eaf4f1b4fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 12/52] fix: release the signature when a packet is refused for
 its digest or curve

---
 src/wickrcrypto/src/protocol.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/protocol.c b/src/wickrcrypto/src/protocol.c
index 3813daf..a9febac 100644
--- a/src/wickrcrypto/src/protocol.c
+++ b/src/wickrcrypto/src/protocol.c
@@ -358,6 +358,7 @@ wickr_packet_t *wickr_packet_create_from_buffer(const wickr_buffer_t *buffer)
     if (!signature ||
         signature->digest_mode.digest_id != digest.digest_id ||
         signature->curve.identifier != curve->identifier) {
+        wickr_ecdsa_result_destroy(&signature);
         return NULL;
     }
     
-- 
2.43.0


From c77d1f6f587e4e8b218efe327213242edb697c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 13/52] fix: packet creation returns NULL when its payload
 cannot be serialized

---
 src/wickrcrypto/src/protocol.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/protocol.c b/src/wickrcrypto/src/protocol.c
index a9febac..679f70e 100644
--- a/src/wickrcrypto/src/protocol.c
+++ b/src/wickrcrypto/src/protocol.c
@@ -271,6 +271,11 @@ wickr_packet_t *wickr_packet_create_with_components(const wickr_crypto_engine_t
     
     wickr_buffer_t *enc_payload_bytes = wickr_cipher_result_serialize(enc_payload);
     
+    if (!enc_payload_bytes) {
+        wickr_buffer_destroy(&enc_header_bytes);
+        return NULL;
+    }
+    
     proto_packet.enc_header.data = enc_header_bytes->bytes;
     proto_packet.enc_header.len = enc_header_bytes->length;
     proto_packet.enc_payload.data = enc_payload_bytes->bytes;
-- 
2.43.0


From 628516d4ddf5a20c8e740c138a2d4278829f1bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 14/52] fix: copying a parse or decode result fails if one of
 its parts cannot be copied

---
 src/wickrcrypto/src/protocol.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/protocol.c b/src/wickrcrypto/src/protocol.c
index 679f70e..207e903 100644
--- a/src/wickrcrypto/src/protocol.c
+++ b/src/wickrcrypto/src/protocol.c
@@ -497,7 +497,13 @@ wickr_parse_result_t *wickr_parse_result_copy(const wickr_parse_result_t *source
     wickr_cipher_result_t *enc_payload_copy = wickr_cipher_result_copy(source->enc_payload);
     wickr_key_exchange_t *key_exchange_copy = wickr_key_exchange_copy(source->key_exchange);
     
-    wickr_parse_result_t *copy = __wickr_parse_result_create(header_copy, key_exchange_copy, enc_payload_copy, source->signature_status, source->err);
+    wickr_parse_result_t *copy = NULL;
+    
+    if ((header_copy || !source->key_exchange_set) &&
+        (enc_payload_copy || !source->enc_payload) &&
+        (key_exchange_copy || !source->key_exchange)) {
+        copy = __wickr_parse_result_create(header_copy, key_exchange_copy, enc_payload_copy, source->signature_status, source->err);
+    }
     
     if (!copy) {
         wickr_key_exchange_set_destroy(&header_copy);
@@ -556,10 +562,15 @@ wickr_decode_result_t *wickr_decode_result_copy(const wickr_decode_result_t *res
     wickr_payload_t *payload_copy = wickr_payload_copy(result->decrypted_payload);
     wickr_cipher_key_t *cipher_key_copy = wickr_cipher_key_copy(result->payload_key);
     
-    wickr_decode_result_t *copy = __wickr_decode_result_create(result->err, payload_copy, cipher_key_copy);
+    wickr_decode_result_t *copy = NULL;
+    
+    if ((payload_copy || !result->decrypted_payload) && (cipher_key_copy || !result->payload_key)) {
+        copy = __wickr_decode_result_create(result->err, payload_copy, cipher_key_copy);
+    }
     
     if (!copy) {
         wickr_payload_destroy(&payload_copy);
+        wickr_cipher_key_destroy(&cipher_key_copy);
     }
     
     return copy;
-- 
2.43.0


From b0a014f9541e6735a84fde6e47a15b15bc09d68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 15/52] fix: base64 and hex decoding stay inside the text
 buffer for unterminated text and characters above 127

---
 src/wickrcrypto/src/util.c | 45 ++++++++++++++------------------------
 1 file changed, 17 insertions(+), 28 deletions(-)

diff --git a/src/wickrcrypto/src/util.c b/src/wickrcrypto/src/util.c
index a76a634..e8c688a 100644
--- a/src/wickrcrypto/src/util.c
+++ b/src/wickrcrypto/src/util.c
@@ -33,6 +33,14 @@ static const short _base64DecodingTable[256] = {
 	-2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2, -2
 };
 
+/* The number of characters before the terminator, or in the whole buffer if there is no terminator */
+static size_t
+__textLength(const wickr_buffer_t *text)
+{
+    const uint8_t *end = memchr(text->bytes, '\0', text->length);
+    return end ? (size_t)(end - text->bytes) : text->length;
+}
+
 wickr_buffer_t *
 getBase64FromData(const wickr_buffer_t * objData)
 {
@@ -97,12 +105,10 @@ getDataFromBase64(const wickr_buffer_t * strBase64)
 	const char * objPointer = (const char *)strBase64->bytes;
 	if (objPointer == NULL)  return NULL;
 
-	size_t intLength = strlen(objPointer);
-    if (intLength > strBase64->length)
-        intLength = strBase64->length;
+	size_t intLength = __textLength(strBase64);
     
-	int intCurrent;
-	int i = 0, j = 0, k;
+	int intCurrent = 0;
+	int i = 0, j = 0;
 
     wickr_buffer_t *objResult;
 	objResult = wickr_buffer_create_empty_zero(intLength);
@@ -110,9 +116,10 @@ getDataFromBase64(const wickr_buffer_t * strBase64)
         return NULL;
     
 	// Run through the whole string, converting as we go
-	while ( ((intCurrent = *objPointer++) != '\0') && (intLength-- > 0) ) {
+	while ( intLength-- > 0 ) {
+		intCurrent = (unsigned char)*objPointer++;
 		if (intCurrent == '=') {
-			if (*objPointer != '=' && ((i % 4) == 1)) {// || (intLength > 0)) {
+			if ((intLength == 0 || *objPointer != '=') && ((i % 4) == 1)) {// || (intLength > 0)) {
 				// the padding character is invalid at this point -- so this entire string is invalid
                 wickr_buffer_destroy(&objResult);
 				return NULL;
@@ -152,23 +159,6 @@ getDataFromBase64(const wickr_buffer_t * strBase64)
 		i++;
 	}
 
-	// mop things up if we ended on a boundary
-	k = j;
-	if (intCurrent == '=') {
-		switch (i % 4) {
-			case 1:
-				// Invalid state
-                wickr_buffer_destroy(&objResult);
-				return NULL;
-
-			case 2:
-				k++;
-				// flow through
-			case 3:
-				objResult->bytes[k] = 0;
-		}
-	}
-
     objResult->length = j;
 	return objResult;
 }
@@ -227,7 +217,7 @@ getDataFromHexString(const wickr_buffer_t *hexString)
         return NULL;
     
     const char * bytes = (const char *)hexString->bytes;
-    size_t length = strlen(bytes);
+    size_t length = __textLength(hexString);
     wickr_buffer_t *result = wickr_buffer_create_empty((length / 2));
     if (!result)
         return NULL;
@@ -237,10 +227,9 @@ getDataFromHexString(const wickr_buffer_t *hexString)
     if (r != NULL) {
         unsigned char * index = r;
         
-        while ((*bytes) && (*(bytes +1))) {
-            *index = strToChar(*bytes, *(bytes +1));
+        for (size_t i = 0; i + 1 < length; i += 2) {
+            *index = strToChar(bytes[i], bytes[i + 1]);
             index++;
-            bytes+=2;
         }
         
         return result;
-- 
2.43.0


From c7b224ec0455c303b5f74312c674f4241dd111fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:25 +0000
Subject: [PATCH 16/52] fix: random bytes, hashes, signatures and EC keys
 return NULL when an allocation fails

---
 src/wickrcrypto/src/openssl_suite.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index fc48e27..2dacdf7 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -221,6 +221,10 @@ static EVP_MD_CTX * __openssl_digest_ctx_create(wickr_digest_t digest_mode)
     
     EVP_MD_CTX *ctx = EVP_MD_CTX_create();
     
+    if (!ctx) {
+        return NULL;
+    }
+    
     /* Initialize a digest context using the requested digest mode */
     if (1 != EVP_DigestInit_ex(ctx, digest, NULL)) {
         EVP_MD_CTX_destroy(ctx);
@@ -360,6 +364,10 @@ wickr_buffer_t *openssl_crypto_random(size_t len)
     
     wickr_buffer_t *new_buffer = wickr_buffer_create_empty(len);
     
+    if (!new_buffer) {
+        return NULL;
+    }
+    
     if (1 != RAND_bytes(new_buffer->bytes, (int)len)) {
         wickr_buffer_destroy(&new_buffer);
         return NULL;
@@ -653,6 +661,11 @@ wickr_buffer_t *openssl_sha2(const wickr_buffer_t *buffer, const wickr_buffer_t
     
     wickr_buffer_t *hash_result = wickr_buffer_create_empty_zero(mode.size);
     
+    if (!hash_result) {
+        EVP_MD_CTX_destroy(c);
+        return NULL;
+    }
+    
     if (1 != EVP_DigestFinal(c, hash_result->bytes, NULL)) {
         wickr_buffer_destroy(&hash_result);
         EVP_MD_CTX_destroy(c);
@@ -732,13 +745,13 @@ wickr_ec_key_t *openssl_ec_rand_key(wickr_ec_curve_t curve)
     /* Generate an EC_KEY struct with the selected curve */
     EC_KEY *new_key = EC_KEY_new_by_curve_name(nid);
     
-    /* Tell OpenSSL we are using a named curve so it gets serialized with the keys */
-    EC_KEY_set_asn1_flag(new_key, OPENSSL_EC_NAMED_CURVE);
-    
     if (!new_key) {
         return NULL;
     }
     
+    /* Tell OpenSSL we are using a named curve so it gets serialized with the keys */
+    EC_KEY_set_asn1_flag(new_key, OPENSSL_EC_NAMED_CURVE);
+    
     /* Generate a random  key pair  and store it in new_key */
     if (1 != EC_KEY_generate_key(new_key)) {
         EC_KEY_free(new_key);
-- 
2.43.0


From e1c90904f0b24a7c0be5f1d5573f9ad6d7992e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:25 +0000
Subject: [PATCH 17/52] fix: encryption refuses an IV shorter or longer than
 its cipher uses (read past the IV, leak)

---
 src/wickrcrypto/src/openssl_suite.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 2dacdf7..b9003cf 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -417,6 +417,11 @@ wickr_cipher_result_t *openssl_aes256_encrypt(const wickr_buffer_t *plaintext, c
         return NULL;
     }
     
+    /* An IV that is passed in must have the length the cipher reads */
+    if (iv && iv->length != cipher.iv_len) {
+        return NULL;
+    }
+    
     /* If an IV is not passed in, generate a random one */
     wickr_buffer_t *iv_f = iv ? wickr_buffer_copy(iv) : openssl_crypto_random(cipher.iv_len);
     
-- 
2.43.0


From 68a154f341eaf48068f382097d15f65f3ab0adfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:25 +0000
Subject: [PATCH 18/52] fix: release IV, ciphertext and tag when the cipher
 result cannot be allocated

---
 src/wickrcrypto/src/openssl_suite.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index b9003cf..d386b75 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -490,9 +490,15 @@ wickr_cipher_result_t *openssl_aes256_encrypt(const wickr_buffer_t *plaintext, c
         }
     }
     
+    wickr_cipher_result_t *cipher_result = wickr_cipher_result_create(cipher, iv_f, cipher_text, auth_tag);
+    
+    if (!cipher_result) {
+        goto process_error;
+    }
+    
     EVP_CIPHER_CTX_free(ctx);
     
-    return wickr_cipher_result_create(cipher, iv_f, cipher_text, auth_tag);
+    return cipher_result;
     
 process_error:
     if (auth_tag) {
-- 
2.43.0


From 642f5ce08d4a63218eb8d4b8be7e5776589d9bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:25 +0000
Subject: [PATCH 19/52] fix: negative results of the crypto library are
 failures when exporting private keys and raw signatures

---
 src/wickrcrypto/src/openssl_suite.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index d386b75..87064bd 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -162,7 +162,7 @@ static wickr_buffer_t *__openssl_ec_pri_key_to_buffer(EC_KEY *key)
     }
     
     uint8_t *bytes = pri_key_data->bytes;
-    if (!i2d_ECPrivateKey(key, &bytes)) {
+    if (i2d_ECPrivateKey(key, &bytes) <= 0) {
         wickr_buffer_destroy_zero(&pri_key_data);
         return NULL;
     }
@@ -972,8 +972,8 @@ int __openssl_ecdsa_bn_to_bin(wickr_buffer_t *out_buffer, ECDSA_SIG *sig) {
 int __openssl_ecdsa_bn_to_bin(wickr_buffer_t *out_buffer, ECDSA_SIG *sig) {
     unsigned int out_buffer_len = (unsigned int)out_buffer->length;
     
-    return BN_bn2binpad(ECDSA_SIG_get0_r(sig), out_buffer->bytes, out_buffer_len / 2) &&
-        BN_bn2binpad(ECDSA_SIG_get0_s(sig), out_buffer->bytes + out_buffer_len / 2, out_buffer_len / 2);
+    return BN_bn2binpad(ECDSA_SIG_get0_r(sig), out_buffer->bytes, out_buffer_len / 2) > 0 &&
+        BN_bn2binpad(ECDSA_SIG_get0_s(sig), out_buffer->bytes + out_buffer_len / 2, out_buffer_len / 2) > 0;
 }
 #else
 int __openssl_ecdsa_bn_to_bin(wickr_buffer_t *out_buffer, ECDSA_SIG *sig) {
-- 
2.43.0


From 48ed1a81a81e1e22179355cdfb2d764eed28b534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:25 +0000
Subject: [PATCH 20/52] fix: key, digest and signature objects are released on
 every failure of the default engine

---
 src/wickrcrypto/src/openssl_suite.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 87064bd..c7f51d9 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -114,12 +114,18 @@ static EVP_PKEY *__openssl_evp_ec_key_from_buffer(EC_KEY *existing,
     EVP_PKEY *evp_signing_key = EVP_PKEY_new();
     
     if (!evp_signing_key) {
+        if (!existing) {
+            EC_KEY_free(key);
+        }
         return NULL;
     }
     
     /* Convert the EC_KEY structure to an EVP_PKEY */
     if (1 != EVP_PKEY_assign_EC_KEY(evp_signing_key, key)) {
         EVP_PKEY_free(evp_signing_key);
+        if (!existing) {
+            EC_KEY_free(key);
+        }
         return NULL;
     }
     
@@ -254,6 +260,7 @@ static EVP_MD_CTX * __openssl_digest_sign_ctx_create(wickr_digest_t digest_mode,
     EVP_PKEY *evp_signing_key = key_deserialization_function(key_data);
     
     if (!evp_signing_key) {
+        EVP_MD_CTX_destroy(ctx);
         return NULL;
     }
     
@@ -281,6 +288,7 @@ static EVP_MD_CTX * __openssl_digest_verify_ctx_create(wickr_digest_t digest_mod
     
     /* Initialize a digest context with the digest the signature was created with */
     if (1 != EVP_DigestInit_ex(ctx, EVP_MD_CTX_md(ctx), NULL)) {
+        EVP_MD_CTX_destroy(ctx);
         return NULL;
     }
     
@@ -1073,6 +1081,8 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
 #elif OPENSSL_VERSION_NUMBER >= 0x010100000
         if (!ECDSA_SIG_set0(sig, r, s)) {
             ECDSA_SIG_free(sig);
+            BN_free(r);
+            BN_free(s);
             return NULL;
         }
 #else
@@ -1095,6 +1105,7 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         
         if (sig_size != i2d_ECDSA_SIG(sig, &bytes)) {
             wickr_buffer_destroy(&sig_data);
+            ECDSA_SIG_free(sig);
             return NULL;
         }
         
@@ -1234,6 +1245,7 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         wickr_buffer_t *computed_hmac = openssl_hmac_create(data, hmac_key, mode);
         
         if (!expected || !computed_hmac) {
+            wickr_buffer_destroy_zero(&computed_hmac);
             return false;
         }
         
-- 
2.43.0


From 56ec34fa9b2477428606c331ff5f2e41ea25d6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:25 +0000
Subject: [PATCH 21/52] fix: file encryption fails when the source cannot be
 read or the tag cannot be stored

---
 src/wickrcrypto/src/openssl_suite.c | 31 +++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index c7f51d9..afa7a55 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -1276,6 +1276,12 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         
         wickr_cipher_result_t *cipher_result = wickr_cipher_result_create(key->cipher, iv_f, NULL, auth_tag);
         
+        if (!cipher_result) {
+            wickr_buffer_destroy(&iv_f);
+            wickr_buffer_destroy(&auth_tag);
+            return false;
+        }
+        
         wickr_buffer_t *serialized = wickr_cipher_result_serialize(cipher_result);
         if (!serialized)
             goto process_error;
@@ -1327,9 +1333,17 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         cipherBuffer = (unsigned char *)wickr_alloc(sizeof(plainBuffer) + EVP_CIPHER_CTX_block_size(ctx));
         int outlength = 0;
         
+        if (!cipherBuffer) {
+            goto process_error;
+        }
+        
         for (;;) {
             size_t bytes_read = fread(plainBuffer, 1, sizeof(plainBuffer), in_file);
             
+            if (ferror(in_file)) {
+                goto process_error;
+            }
+            
             if (1 != EVP_EncryptUpdate(ctx, cipherBuffer, &outlength, plainBuffer, (int)bytes_read)) {
                 goto process_error;
             }
@@ -1342,7 +1356,7 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
             
             if (bytes_read < sizeof(plainBuffer)) {
                 
-                if (1 != EVP_EncryptFinal_ex(ctx, plainBuffer, &outlength)) {
+                if (1 != EVP_EncryptFinal_ex(ctx, cipherBuffer, &outlength)) {
                     goto process_error;
                 }
                 
@@ -1368,13 +1382,14 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         
         // Complete the saving of data to the file
         serialized = wickr_cipher_result_serialize(cipher_result);
-        if (serialized) {
-            //Seek to the position that the Tag zeros start in the file so we can fill in the tag
-            rewind(out_file);
-            size_t bytes_written = fwrite(serialized->bytes, 1, serialized->length, out_file);
-            if (bytes_written != serialized->length) {
-                goto process_error;
-            }
+        if (!serialized) {
+            goto process_error;
+        }
+        //Seek to the position that the Tag zeros start in the file so we can fill in the tag
+        rewind(out_file);
+        size_t header_written = fwrite(serialized->bytes, 1, serialized->length, out_file);
+        if (header_written != serialized->length) {
+            goto process_error;
         }
         
         ret_val = true;
-- 
2.43.0


From f2d1c6c37aeccf0ac2fd952055b0f8454a1a2dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:25 +0000
Subject: [PATCH 22/52] fix: file decryption fails for a file of another cipher
 than the key, for read errors and without memory

---
 src/wickrcrypto/src/openssl_suite.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index afa7a55..46585b3 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -1460,6 +1460,16 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         wickr_cipher_result_t *cipher_result = wickr_cipher_result_from_buffer(cipher_buffer);
         
         unsigned char *plainBuffer = NULL;
+        
+        if (!cipher_result) {
+            goto process_error;
+        }
+        
+        /* The key decides the cipher, not the file */
+        if (key->cipher.cipher_id != cipher_result->cipher.cipher_id) {
+            goto process_error;
+        }
+        
         const EVP_CIPHER *cipher = __openssl_get_cipher_mode(cipher_result->cipher);
         if (!cipher) {
             goto process_error;
@@ -1479,6 +1489,9 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         
         /* Allocate a cipher context */
         ctx = EVP_CIPHER_CTX_new();
+        if (!ctx) {
+            goto process_error;
+        }
         
         /* Initialize the context with NULL to allow us to perform control operations */
         if (1 != EVP_DecryptInit_ex(ctx, cipher, NULL, NULL, NULL)) {
@@ -1512,9 +1525,17 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
         plainBuffer = wickr_alloc(sizeof(cipherBuffer) + EVP_CIPHER_CTX_block_size(ctx));
         int outlength = 0;
         
+        if (!plainBuffer) {
+            goto process_error;
+        }
+        
         for (;;) {
             size_t bytesRead = fread(cipherBuffer, 1, sizeof(cipherBuffer), in_file);
             
+            if (ferror(in_file)) {
+                goto process_error;
+            }
+            
             if (1 != EVP_DecryptUpdate(ctx, plainBuffer, &outlength, cipherBuffer, (int)bytesRead)) {
                 goto process_error;
             }
@@ -1526,7 +1547,7 @@ wickr_ecdsa_result_t *openssl_ecdsa_from_raw(const wickr_ec_curve_t curve, const
             
             
             if (bytesRead < sizeof(cipherBuffer)) {
-                if (1 != EVP_DecryptFinal_ex(ctx, cipherBuffer, &outlength)) {
+                if (1 != EVP_DecryptFinal_ex(ctx, plainBuffer, &outlength)) {
                     goto process_error;
                 }
                 if (outlength > 0) {
-- 
2.43.0


From b8fb49dc25ead2c58319b9d411b90a5109862d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:25 +0000
Subject: [PATCH 23/52] fix: a file whose buffered data cannot be written is
 not reported as encrypted or decrypted

---
 src/wickrcrypto/src/openssl_file_suite.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_file_suite.c b/src/wickrcrypto/src/openssl_file_suite.c
index 8e6d7c3..f2c4a79 100644
--- a/src/wickrcrypto/src/openssl_file_suite.c
+++ b/src/wickrcrypto/src/openssl_file_suite.c
@@ -146,19 +146,24 @@ static void aesFileOpRemoveTempFile(AESFileOperation *operation) {
     remove(operation->tempPath);
 }
 
-static void aesFileOpCloseSourceAndDestination(AESFileOperation *operation) {
+static bool aesFileOpCloseSourceAndDestination(AESFileOperation *operation) {
+	bool retVal = true;
 	if (operation->sourceHandle) {
 		fclose(operation->sourceHandle);
 		operation->sourceHandle = NULL;
 	}
 	if (operation->destinationHandle) {
-		fclose(operation->destinationHandle);
+		/* Buffered data is written here, a failure means the file is not complete */
+		retVal = fclose(operation->destinationHandle) == 0;
 		operation->destinationHandle = NULL;
 	}
+	return retVal;
 }
 
 static bool aesFileOpMoveTempToDestination(AESFileOperation *operation) {
-    aesFileOpCloseSourceAndDestination(operation);
+    if (!aesFileOpCloseSourceAndDestination(operation)) {
+        return false;
+    }
     
     bool retVal = true;
 #if defined(_WIN32)
-- 
2.43.0


From e9fc76a4e355f6a6fdd0f8b68c27d7af0cb60d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:25 +0000
Subject: [PATCH 24/52] fix: no temporary file is left behind when a file
 operation cannot be allocated

---
 src/wickrcrypto/src/openssl_file_suite.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/openssl_file_suite.c b/src/wickrcrypto/src/openssl_file_suite.c
index f2c4a79..e91cb98 100644
--- a/src/wickrcrypto/src/openssl_file_suite.c
+++ b/src/wickrcrypto/src/openssl_file_suite.c
@@ -133,6 +133,7 @@ process_error:
     }
     if (destinationHandle) {
         fclose(destinationHandle);
+        remove(tempPath);
     }
     if (tempPath) {
         wickr_free(tempPath);
-- 
2.43.0


From 0249dca1b238d3da4a52eb923c6e5b5673f05585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 25/52] fix: a public key whose size cannot be determined is
 not exported (write past the buffer)

---
 src/wickrcrypto/src/openssl_suite.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/wickrcrypto/src/openssl_suite.c b/src/wickrcrypto/src/openssl_suite.c
index 46585b3..139d951 100644
--- a/src/wickrcrypto/src/openssl_suite.c
+++ b/src/wickrcrypto/src/openssl_suite.c
@@ -134,8 +134,13 @@ static EVP_PKEY *__openssl_evp_ec_key_from_buffer(EC_KEY *existing,
 
 static wickr_buffer_t *__openssl_ec_pub_key_to_buffer(wickr_ec_curve_t curve, EC_KEY *key)
 {
-    size_t key_size = i2o_ECPublicKey(key, NULL);
-    wickr_buffer_t *pub_key_data = wickr_buffer_create_empty_zero(sizeof(uint8_t) + key_size);
+    int key_size = i2o_ECPublicKey(key, NULL);
+    
+    if (key_size <= 0) {
+        return NULL;
+    }
+    
+    wickr_buffer_t *pub_key_data = wickr_buffer_create_empty_zero(sizeof(uint8_t) + (size_t)key_size);
     
     if (!pub_key_data) {
         return NULL;
@@ -150,7 +155,7 @@ static wickr_buffer_t *__openssl_ec_pub_key_to_buffer(wickr_ec_curve_t curve, EC
     }
     
     uint8_t* bytes = pub_key_data->bytes + sizeof(uint8_t);
-    if (!i2o_ECPublicKey(key, &bytes)) {
+    if (i2o_ECPublicKey(key, &bytes) != key_size) {
         wickr_buffer_destroy(&pub_key_data);
         return NULL;
     }
-- 
2.43.0


From 1f7dc30b7d7c60e8661682c9fc95695b4d5b185f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:47 +0000
Subject: [PATCH 26/52] fix: a handshake message of the other kind is rejected
 instead of being read as the kind expected

---
 src/wickrcrypto/src/transport_handshake.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index bc9a349..e29b3a0 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -387,7 +387,8 @@ static void __wickr_transport_handshake_process_response(wickr_transport_handsha
         return;
     }
     
-    if (!handshake_data->response ||
+    if (handshake_data->payload_case != WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_RESPONSE ||
+        !handshake_data->response ||
         !handshake_data->response->has_encrypted_response_data ||
         !handshake_data->response->has_ephemeral_pubkey) {
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
@@ -511,7 +512,8 @@ static wickr_transport_packet_t *__wickr_transport_handshake_process_initial(wic
     
     Wickr__Proto__HandshakeV1 *handshake_data = wickr_proto_handshake_from_packet(packet);
     
-    if (!handshake_data || !handshake_data->seed || !handshake_data->seed->has_ephemeral_pubkey
+    if (!handshake_data || handshake_data->payload_case != WICKR__PROTO__HANDSHAKE_V1__PAYLOAD_SEED ||
+        !handshake_data->seed || !handshake_data->seed->has_ephemeral_pubkey
         || !handshake_data->seed->has_identity_required) {
         wickr__proto__handshake_v1__free_unpacked(handshake_data, NULL);
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
-- 
2.43.0


From eaf3095370c651d79add922d29c2bbfc4cd81340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:47 +0000
Subject: [PATCH 27/52] fix: the derived key material is released when no
 stream key can be made of it

---
 src/wickrcrypto/src/transport_root_key.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wickrcrypto/src/transport_root_key.c b/src/wickrcrypto/src/transport_root_key.c
index cb7df79..bf2b1e3 100644
--- a/src/wickrcrypto/src/transport_root_key.c
+++ b/src/wickrcrypto/src/transport_root_key.c
@@ -98,6 +98,7 @@ wickr_stream_key_t *wickr_transport_root_key_to_stream_key(const wickr_transport
     wickr_kdf_result_t *raw_key_material = engine->wickr_crypto_kdf_meta(&kdf_meta, root_key->secret);
     
     if (!raw_key_material || raw_key_material->hash->length != root_key->cipher.key_len * 2) {
+        wickr_kdf_result_destroy(&raw_key_material);
         return NULL;
     }
     
@@ -106,6 +107,7 @@ wickr_stream_key_t *wickr_transport_root_key_to_stream_key(const wickr_transport
     
     if (!cipher_key) {
         wickr_buffer_destroy_zero(&cipher_key_data);
+        wickr_kdf_result_destroy(&raw_key_material);
         return NULL;
     }
     
-- 
2.43.0


From d91304c23e50ea9dfa8d83fbf3ee8daa01ede560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:47 +0000
Subject: [PATCH 28/52] fix: handshake messages that cannot be completed are
 released entirely

---
 src/wickrcrypto/src/transport_handshake_priv.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wickrcrypto/src/transport_handshake_priv.c b/src/wickrcrypto/src/transport_handshake_priv.c
index 6591cf8..d0dca08 100644
--- a/src/wickrcrypto/src/transport_handshake_priv.c
+++ b/src/wickrcrypto/src/transport_handshake_priv.c
@@ -27,12 +27,12 @@ Wickr__Proto__HandshakeV1__Seed *wickr_proto_handshake_seed_create(const wickr_i
     seed->identity_required = needs_remote_identity;
     
     if (!wickr_buffer_to_protobytes(&seed->ephemeral_pubkey, ephemeral_pub_key)) {
-        wickr_free(seed);
+        wickr_proto_handshake_seed_free(seed);
         return NULL;
     }
     
     if (!seed->id_chain) {
-        wickr_free(seed);
+        wickr_proto_handshake_seed_free(seed);
         return NULL;
     }
     
@@ -132,12 +132,12 @@ Wickr__Proto__HandshakeV1__Response *wickr_proto_handshake_response_create(const
     }
     
     if (!wickr_buffer_to_protobytes(&response->ephemeral_pubkey, ephemeral_pubkey)) {
-        wickr_free(response);
+        wickr_proto_handshake_response_free(response);
         return NULL;
     }
     
     if (!wickr_buffer_to_protobytes(&response->encrypted_response_data, encrypted_response_data)) {
-        wickr_free(response);
+        wickr_proto_handshake_response_free(response);
         return NULL;
     }
     
-- 
2.43.0


From 99418f8ebd57e6346f04cfe4870c3025a7a1e33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:47 +0000
Subject: [PATCH 29/52] fix: a failing handshake step releases everything it
 has made

---
 src/wickrcrypto/src/transport_handshake.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index e29b3a0..17321bf 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -235,6 +235,7 @@ static wickr_transport_packet_t *__wickr_transport_handshake_build_signed_packet
     
     /* Sign the handshake packet */
     if (!handshake_pkt || !wickr_transport_packet_sign(handshake_pkt, &handshake->engine, handshake->local_identity)) {
+        wickr_transport_packet_destroy(&handshake_pkt);
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
         return NULL;
     }
@@ -350,7 +351,7 @@ static wickr_kdf_meta_t *__wickr_transport_handshake_kdf_meta_gen(wickr_transpor
     wickr_kdf_meta_t *kdf_meta = wickr_kdf_meta_create(KDF_HKDF_SHA512, NULL, hashed_info);
     
     if (!kdf_meta) {
-        wickr_buffer_destroy(&info_data);
+        wickr_buffer_destroy(&hashed_info);
     }
     
     return kdf_meta;
@@ -487,6 +488,7 @@ static void __wickr_transport_handshake_process_response(wickr_transport_handsha
     wickr_buffer_destroy_zero(&response_buffer);
     
     if (!response_data || !response_data->root_key) {
+        wickr__proto__handshake_v1_response_data__free_unpacked(response_data, NULL);
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
         return;
     }
@@ -561,6 +563,8 @@ static wickr_transport_packet_t *__wickr_transport_handshake_process_initial(wic
     
     if (!handshake->root_key) {
         wickr__proto__handshake_v1__free_unpacked(handshake_data, NULL);
+        wickr_ecdh_cipher_ctx_destroy(&cipher_ctx);
+        wickr_ec_key_destroy(&ephemeral_key);
         handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
         return NULL;
     }
-- 
2.43.0


From debcb2983f815a8713d2167edce3564033ad172d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:26 +0000
Subject: [PATCH 30/52] fix: a handshake that cannot ask for the verification
 of the identity fails instead of waiting forever

---
 src/wickrcrypto/src/transport_handshake.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index 17321bf..e0ea716 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -730,6 +730,8 @@ wickr_transport_packet_t *wickr_transport_handshake_process(wickr_transport_hand
         wickr_identity_chain_t *identity_chain_copy = wickr_identity_chain_copy(handshake->remote_identity);
         
         if (handshake->status == TRANSPORT_HANDSHAKE_STATUS_FAILED || identity_chain_copy == NULL) {
+            wickr_identity_chain_destroy(&identity_chain_copy);
+            handshake->status = TRANSPORT_HANDSHAKE_STATUS_FAILED;
             return NULL;
         }
         
-- 
2.43.0


From 9c1713ea924e3fe77b4abb7e6acca33420c2f345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:26 +0000
Subject: [PATCH 31/52] fix: the root key of a transport is wiped in the
 messages it is exchanged in

---
 src/wickrcrypto/src/transport_handshake.c     | 6 +++++-
 src/wickrcrypto/src/transport_root_key_priv.c | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/transport_handshake.c b/src/wickrcrypto/src/transport_handshake.c
index e0ea716..b7dbdf4 100644
--- a/src/wickrcrypto/src/transport_handshake.c
+++ b/src/wickrcrypto/src/transport_handshake.c
@@ -494,6 +494,10 @@ static void __wickr_transport_handshake_process_response(wickr_transport_handsha
     }
     
     handshake->root_key = wickr_transport_root_key_from_proto(response_data->root_key);
+    
+    if (response_data->root_key->secret.data) {
+        wickr_zero(response_data->root_key->secret.data, response_data->root_key->secret.len);
+    }
     wickr__proto__handshake_v1_response_data__free_unpacked(response_data, NULL);
     
     if (!handshake->root_key) {
@@ -594,7 +598,7 @@ static wickr_transport_packet_t *__wickr_transport_handshake_process_initial(wic
     wickr_cipher_result_t *result = wickr_ecdh_cipher_ctx_cipher(cipher_ctx, serialized_response_data, ephemeral_key, kdf_meta);
     
     wickr_kdf_meta_destroy(&kdf_meta);
-    wickr_buffer_destroy(&serialized_response_data);
+    wickr_buffer_destroy_zero(&serialized_response_data);
     wickr_ec_key_destroy(&ephemeral_key);
     
     if (!result) {
diff --git a/src/wickrcrypto/src/transport_root_key_priv.c b/src/wickrcrypto/src/transport_root_key_priv.c
index c9ea99b..8bf7327 100644
--- a/src/wickrcrypto/src/transport_root_key_priv.c
+++ b/src/wickrcrypto/src/transport_root_key_priv.c
@@ -72,6 +72,9 @@ void wickr_transport_root_key_proto_free(Wickr__Proto__TransportRootKey *root_ke
         return;
     }
     
+    if (root_key_proto->secret.data) {
+        wickr_zero(root_key_proto->secret.data, root_key_proto->secret.len);
+    }
     wickr_free(root_key_proto->secret.data);
     wickr_free(root_key_proto);
 }
-- 
2.43.0


From 597e367b65477bbe56e384f5682c10f1b2874a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:26 +0000
Subject: [PATCH 32/52] fix: the serialized cipher key of a stream key is wiped

---
 src/wickrcrypto/src/stream_key_priv.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wickrcrypto/src/stream_key_priv.c b/src/wickrcrypto/src/stream_key_priv.c
index 57c0edf..ad7015b 100644
--- a/src/wickrcrypto/src/stream_key_priv.c
+++ b/src/wickrcrypto/src/stream_key_priv.c
@@ -8,6 +8,9 @@ void wickr_stream_key_proto_free(Wickr__Proto__StreamKey *proto_key)
     if (!proto_key) {
         return;
     }
+    if (proto_key->cipher_key.data) {
+        wickr_zero(proto_key->cipher_key.data, proto_key->cipher_key.len);
+    }
     wickr_free(proto_key->cipher_key.data);
     wickr_free(proto_key);
 }
-- 
2.43.0


From 7fb0b9d7aa03bcf990843e07be15fd723c0aa207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:26 +0000
Subject: [PATCH 33/52] fix: the result of a handshake is released when its
 streams cannot be created

---
 src/wickrcrypto/src/transport_ctx.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 53a1808..6a8e884 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -222,6 +222,7 @@ static bool __wickr_transport_ctx_finalize_handshake(wickr_transport_ctx_t *ctx)
     
     if (!tx_stream) {
         wickr_stream_key_destroy(&tx_key);
+        wickr_transport_handshake_res_destroy(&res);
         return false;
     }
     
-- 
2.43.0


From 647638e99cbed8214b069f3c80eeff9e8cff59a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:26 +0000
Subject: [PATCH 34/52] fix: a transport whose handshake cannot be finalized
 moves to the error state

---
 src/wickrcrypto/src/transport_ctx.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 6a8e884..e215e9c 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -255,11 +255,14 @@ static void __wickr_transport_validate_identity_complete(const wickr_transport_c
     
     wickr_transport_packet_t *volley_packet = wickr_transport_handshake_verify_identity(_ctx->pending_handshake, is_valid);
     
+    bool finalized = true;
+    
     if (wickr_transport_handshake_get_status(_ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION) {
-        __wickr_transport_ctx_finalize_handshake(_ctx);
+        finalized = __wickr_transport_ctx_finalize_handshake(_ctx);
     }
     
-    if (wickr_transport_handshake_get_status(_ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_FAILED) {
+    if (!finalized || wickr_transport_handshake_get_status(_ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_FAILED) {
+        wickr_transport_packet_destroy(&volley_packet);
         __wickr_transport_ctx_set_error(_ctx, TRANSPORT_ERROR_HANDSHAKE_FAILED);
         return;
     }
@@ -386,11 +389,14 @@ static void __wickr_transport_ctx_process_handshake_packet(wickr_transport_ctx_t
     /* Process the packet with the handshake */
     wickr_transport_packet_t *volley_packet = wickr_transport_handshake_process(ctx->pending_handshake, packet);
     
+    bool finalized = true;
+    
     if (wickr_transport_handshake_get_status(ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION) {
-        __wickr_transport_ctx_finalize_handshake(ctx);
+        finalized = __wickr_transport_ctx_finalize_handshake(ctx);
     }
     
-    if (wickr_transport_handshake_get_status(ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_FAILED) {
+    if (!finalized || wickr_transport_handshake_get_status(ctx->pending_handshake) == TRANSPORT_HANDSHAKE_STATUS_FAILED) {
+        wickr_transport_packet_destroy(&volley_packet);
         __wickr_transport_ctx_set_error(ctx, TRANSPORT_ERROR_PROCESS_HANDSHAKE_FAILED);
         return;
     }
-- 
2.43.0


From 3f9dd288bb1f341da972d3bbded100939c69b243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:26 +0000
Subject: [PATCH 35/52] fix: verifying the identity does not activate a
 transport that has failed

---
 src/wickrcrypto/src/transport_ctx.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index e215e9c..475bdc3 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -253,6 +253,11 @@ static void __wickr_transport_validate_identity_complete(const wickr_transport_c
     /* Remove const for internal work */
     wickr_transport_ctx_t *_ctx = (wickr_transport_ctx_t *)ctx;
     
+    /* A transport that has failed meanwhile stays in the error state */
+    if (!_ctx || _ctx->status == TRANSPORT_STATUS_ERROR) {
+        return;
+    }
+    
     wickr_transport_packet_t *volley_packet = wickr_transport_handshake_verify_identity(_ctx->pending_handshake, is_valid);
     
     bool finalized = true;
-- 
2.43.0


From 015fc5d661de686bae7bb375a498ef7b8535b10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:26 +0000
Subject: [PATCH 36/52] fix: a transport is copied with its pending handshake
 and last error, and without a remote identity

---
 src/wickrcrypto/src/transport_ctx.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 475bdc3..72ff862 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -76,7 +76,7 @@ wickr_transport_ctx_t *wickr_transport_ctx_copy(const wickr_transport_ctx_t *ctx
     
     wickr_identity_chain_t *remote_copy = wickr_identity_chain_copy(ctx->remote_identity);
     
-    if (!remote_copy) {
+    if (!remote_copy && ctx->remote_identity) {
         wickr_identity_chain_destroy(&local_copy);
         return NULL;
     }
@@ -98,6 +98,16 @@ wickr_transport_ctx_t *wickr_transport_ctx_copy(const wickr_transport_ctx_t *ctx
         return NULL;
     }
     
+    wickr_transport_handshake_t *handshake_copy = wickr_transport_handshake_copy(ctx->pending_handshake);
+    
+    if (!handshake_copy && ctx->pending_handshake) {
+        wickr_identity_chain_destroy(&local_copy);
+        wickr_identity_chain_destroy(&remote_copy);
+        wickr_stream_ctx_destroy(&tx_copy);
+        wickr_stream_ctx_destroy(&rx_copy);
+        return NULL;
+    }
+    
     wickr_transport_ctx_t *copy = wickr_alloc_zero(sizeof(wickr_transport_ctx_t));
     
     if (!copy) {
@@ -105,9 +115,13 @@ wickr_transport_ctx_t *wickr_transport_ctx_copy(const wickr_transport_ctx_t *ctx
         wickr_identity_chain_destroy(&remote_copy);
         wickr_stream_ctx_destroy(&tx_copy);
         wickr_stream_ctx_destroy(&rx_copy);
+        wickr_transport_handshake_destroy(&handshake_copy);
         return NULL;
     }
     
+    /* The copied handshake reports to the copy */
+    wickr_transport_set_user_data(handshake_copy, copy);
+    
     copy->engine = ctx->engine;
     copy->local_identity = local_copy;
     copy->remote_identity = remote_copy;
@@ -117,6 +131,8 @@ wickr_transport_ctx_t *wickr_transport_ctx_copy(const wickr_transport_ctx_t *ctx
     copy->callbacks = ctx->callbacks;
     copy->evo_count = ctx->evo_count;
     copy->user = ctx->user;
+    copy->err = ctx->err;
+    copy->pending_handshake = handshake_copy;
     
     return copy;
 }
-- 
2.43.0


From becf54b895020017931caf599ab2f78491f447a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:39 +0000
Subject: [PATCH 37/52] fix: a cipher id out of range in a root key message is
 rejected instead of being truncated

---
 src/wickrcrypto/src/transport_root_key_priv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wickrcrypto/src/transport_root_key_priv.c b/src/wickrcrypto/src/transport_root_key_priv.c
index 8bf7327..9e4c1f6 100644
--- a/src/wickrcrypto/src/transport_root_key_priv.c
+++ b/src/wickrcrypto/src/transport_root_key_priv.c
@@ -42,6 +42,10 @@ wickr_transport_root_key_t *wickr_transport_root_key_from_proto(const Wickr__Pro
         return NULL;
     }
     
+    if (root_key_proto->cipher_id > UINT8_MAX) {
+        return NULL;
+    }
+    
     wickr_buffer_t *secret_buffer = wickr_buffer_from_protobytes(root_key_proto->secret);
     
     if (!secret_buffer) {
-- 
2.43.0


From 8546e02a44580e6c0311b01dd4d84a439ee09f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:59 +0000
Subject: [PATCH 38/52] fix: a handshake is not created without the pinned
 remote identity when its copy fails

---
 src/wickrcrypto/src/transport_ctx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 72ff862..8a0756d 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -315,6 +315,12 @@ static wickr_transport_handshake_t *__wickr_transport_ctx_create_handshake(const
     wickr_identity_chain_t *local_copy = wickr_identity_chain_copy(ctx->local_identity);
     wickr_identity_chain_t *remote_copy = wickr_identity_chain_copy(ctx->remote_identity);
     
+    /* Never continue without the identity the connection is pinned to */
+    if (!remote_copy && ctx->remote_identity) {
+        wickr_identity_chain_destroy(&local_copy);
+        return NULL;
+    }
+    
     wickr_transport_handshake_t *handshake = wickr_transport_handshake_create(ctx->engine,
                                                                               local_copy,
                                                                               remote_copy,
-- 
2.43.0


From 4bbf9a6e9aafcfca0f4e249ce65c2c32927bd3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:59 +0000
Subject: [PATCH 39/52] fix: a transport that is already answering a handshake
 cannot be started (the handshake was leaked)

---
 src/wickrcrypto/src/transport_ctx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/transport_ctx.c b/src/wickrcrypto/src/transport_ctx.c
index 8a0756d..6663730 100644
--- a/src/wickrcrypto/src/transport_ctx.c
+++ b/src/wickrcrypto/src/transport_ctx.c
@@ -338,7 +338,7 @@ static wickr_transport_handshake_t *__wickr_transport_ctx_create_handshake(const
 
 void wickr_transport_ctx_start(wickr_transport_ctx_t *ctx)
 {
-    if (!ctx || ctx->status != TRANSPORT_STATUS_NONE) {
+    if (!ctx || ctx->status != TRANSPORT_STATUS_NONE || ctx->pending_handshake) {
         __wickr_transport_ctx_set_error(ctx, TRANSPORT_ERROR_BAD_START_STATUS);
         return;
     }
-- 
2.43.0


From cec515cb3395051ade9d9f396c4d56da588abe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:44 +0000
Subject: [PATCH 40/52] fix: the parts of a key derivation are released when it
 cannot be completed

---
 src/wickrcrypto/src/kdf.c | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/wickrcrypto/src/kdf.c b/src/wickrcrypto/src/kdf.c
index 86cd7e8..45338b6 100644
--- a/src/wickrcrypto/src/kdf.c
+++ b/src/wickrcrypto/src/kdf.c
@@ -116,7 +116,13 @@ wickr_kdf_meta_t *wickr_kdf_meta_create_with_buffer(const wickr_buffer_t *buffer
         return NULL;
     }
     
-    return wickr_kdf_meta_create(*algo, salt_buffer, NULL);
+    wickr_kdf_meta_t *meta = wickr_kdf_meta_create(*algo, salt_buffer, NULL);
+    
+    if (!meta) {
+        wickr_buffer_destroy_zero(&salt_buffer);
+    }
+    
+    return meta;
 }
 
 wickr_buffer_t *wickr_kdf_meta_serialize(const wickr_kdf_meta_t *meta)
@@ -158,7 +164,14 @@ wickr_kdf_meta_t *wickr_kdf_meta_copy(const wickr_kdf_meta_t *source)
         return NULL;
     }
     
-    return wickr_kdf_meta_create(source->algo, salt_copy, info_copy);
+    wickr_kdf_meta_t *copy = wickr_kdf_meta_create(source->algo, salt_copy, info_copy);
+    
+    if (!copy) {
+        wickr_buffer_destroy_zero(&salt_copy);
+        wickr_buffer_destroy(&info_copy);
+    }
+    
+    return copy;
 }
 
 void wickr_kdf_meta_destroy(wickr_kdf_meta_t **meta)
@@ -210,7 +223,14 @@ wickr_kdf_result_t *wickr_kdf_result_copy(const wickr_kdf_result_t *source)
         return NULL;
     }
     
-    return wickr_kdf_result_create(meta_copy, hash_copy);
+    wickr_kdf_result_t *copy = wickr_kdf_result_create(meta_copy, hash_copy);
+    
+    if (!copy) {
+        wickr_kdf_meta_destroy(&meta_copy);
+        wickr_buffer_destroy_zero(&hash_copy);
+    }
+    
+    return copy;
 }
 
 void wickr_kdf_result_destroy(wickr_kdf_result_t **result)
@@ -461,11 +481,18 @@ wickr_kdf_result_t *wickr_perform_kdf_meta(const wickr_kdf_meta_t *existing_meta
     wickr_kdf_meta_t *result_meta = wickr_kdf_meta_copy(existing_meta);
     
     if (!result_meta) {
-        wickr_buffer_destroy(&hash_output);
+        wickr_buffer_destroy_zero(&hash_output);
         return NULL;
     }
     
-    return wickr_kdf_result_create(result_meta, hash_output);
+    wickr_kdf_result_t *result = wickr_kdf_result_create(result_meta, hash_output);
+    
+    if (!result) {
+        wickr_kdf_meta_destroy(&result_meta);
+        wickr_buffer_destroy_zero(&hash_output);
+    }
+    
+    return result;
 }
 
 const wickr_kdf_algo_t *wickr_hkdf_algo_for_digest(wickr_digest_t digest)
-- 
2.43.0


From 4707419c63a2cd134a445ca1630a3cfc58bc132f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:44 +0000
Subject: [PATCH 41/52] fix: the copy of the passphrase made for bcrypt is
 wiped, and released on every path

---
 src/wickrcrypto/src/kdf.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wickrcrypto/src/kdf.c b/src/wickrcrypto/src/kdf.c
index 45338b6..dfd6c7e 100644
--- a/src/wickrcrypto/src/kdf.c
+++ b/src/wickrcrypto/src/kdf.c
@@ -325,6 +325,7 @@ static wickr_buffer_t *__bcrypt_generate_hash(const wickr_kdf_meta_t *meta, cons
     wickr_buffer_t *passphrase_final = wickr_buffer_create_empty_zero(passphrase->length + 1);
     
     if (!wickr_buffer_modify_section(passphrase_final, passphrase->bytes, 0, passphrase->length)) {
+        wickr_buffer_destroy_zero(&passphrase_final);
         wickr_buffer_destroy(&salt_buffer);
         return NULL;
     }
@@ -333,12 +334,12 @@ static wickr_buffer_t *__bcrypt_generate_hash(const wickr_kdf_meta_t *meta, cons
     memset(&out, 0, BCRYPT_HASH_SIZE);
     
     if (!crypt_rn((char *)passphrase_final->bytes, (char *)salt_buffer->bytes, out, BCRYPT_HASH_SIZE)) {
-        wickr_buffer_destroy(&passphrase_final);
+        wickr_buffer_destroy_zero(&passphrase_final);
         wickr_buffer_destroy(&salt_buffer);
         return NULL;
     }
     
-    wickr_buffer_destroy(&passphrase_final);
+    wickr_buffer_destroy_zero(&passphrase_final);
     
     wickr_buffer_t *hash_buffer = wickr_buffer_create((uint8_t *)out, strlen(out));
     wickr_buffer_destroy(&salt_buffer);
-- 
2.43.0


From 1d05c982fb07d634e008f45b4447e853ff4f7863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:44 +0000
Subject: [PATCH 42/52] fix: an HKDF output size that cannot be recorded is
 refused instead of being truncated

---
 src/wickrcrypto/src/kdf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wickrcrypto/src/kdf.c b/src/wickrcrypto/src/kdf.c
index dfd6c7e..97bca5b 100644
--- a/src/wickrcrypto/src/kdf.c
+++ b/src/wickrcrypto/src/kdf.c
@@ -67,6 +67,11 @@ wickr_kdf_meta_t *wickr_kdf_meta_create_hkdf_expand(const wickr_digest_t *digest
         return NULL;
     }
     
+    /* The size is recorded in a single byte */
+    if (output_size > UINT8_MAX) {
+        return NULL;
+    }
+    
     wickr_kdf_algo_t algo = KDF_HKDF_SHA512_EXPAND;
     algo.output_size = output_size;
     
-- 
2.43.0


From c6787d5894572f04f9a7c548d7949bf5275a0485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:44 +0000
Subject: [PATCH 43/52] fix: the derived key is released when the data sealed
 under a passphrase is malformed

---
 src/wickrcrypto/src/crypto_engine.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/crypto_engine.c b/src/wickrcrypto/src/crypto_engine.c
index 7178dea..a2f5671 100644
--- a/src/wickrcrypto/src/crypto_engine.c
+++ b/src/wickrcrypto/src/crypto_engine.c
@@ -153,6 +153,7 @@ wickr_buffer_t *wickr_crypto_engine_kdf_decipher(const wickr_crypto_engine_t *en
     wickr_cipher_result_t *cipher_result = wickr_cipher_result_from_buffer(&cipher_text);
     
     if (!cipher_result) {
+        wickr_kdf_result_destroy(&kdf_result);
         return NULL;
     }
     
-- 
2.43.0


From d0b136127ff331726d27d4ad655f857bb6030215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:11 +0000
Subject: [PATCH 44/52] fix: storage keys are not serialized from memory that
 could not be allocated

---
 src/wickrcrypto/src/storage.c      | 5 +++++
 src/wickrcrypto/src/storage_priv.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/wickrcrypto/src/storage.c b/src/wickrcrypto/src/storage.c
index 1bf93a0..7b6c078 100644
--- a/src/wickrcrypto/src/storage.c
+++ b/src/wickrcrypto/src/storage.c
@@ -58,6 +58,11 @@ wickr_buffer_t *wickr_storage_keys_serialize(const wickr_storage_keys_t *keys)
     }
     
     Wickr__Proto__StorageKeys *proto_keys = wickr_storage_keys_to_proto(keys);
+    
+    if (!proto_keys) {
+        return NULL;
+    }
+    
     size_t buffer_size = wickr__proto__storage_keys__get_packed_size(proto_keys);
     wickr_buffer_t *concat_buffer = wickr_buffer_create_empty(buffer_size);
     
diff --git a/src/wickrcrypto/src/storage_priv.c b/src/wickrcrypto/src/storage_priv.c
index ef5cd62..c517010 100644
--- a/src/wickrcrypto/src/storage_priv.c
+++ b/src/wickrcrypto/src/storage_priv.c
@@ -23,6 +23,11 @@ Wickr__Proto__StorageKeys *wickr_storage_keys_to_proto(const wickr_storage_keys_
     }
     
     Wickr__Proto__StorageKeys *proto_keys = wickr_alloc_zero(sizeof(Wickr__Proto__StorageKeys));
+    
+    if (!proto_keys) {
+        return NULL;
+    }
+    
     wickr__proto__storage_keys__init(proto_keys);
     proto_keys->version = CURRENT_STORAGE_KEY_VERSION;
     
-- 
2.43.0


From 302e9b0000dfa6fb36e47c6ced87ae69438512af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:11 +0000
Subject: [PATCH 45/52] fix: the packet header key is released when a context
 cannot be allocated

---
 src/wickrcrypto/src/wickr_ctx.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/wickr_ctx.c b/src/wickrcrypto/src/wickr_ctx.c
index acf6bcb..ccfef9c 100644
--- a/src/wickrcrypto/src/wickr_ctx.c
+++ b/src/wickrcrypto/src/wickr_ctx.c
@@ -397,6 +397,7 @@ wickr_ctx_t *wickr_ctx_create(const wickr_crypto_engine_t engine, wickr_dev_info
     wickr_ctx_t *new_ctx = wickr_alloc_zero(sizeof(wickr_ctx_t));
     
     if (!new_ctx) {
+        wickr_cipher_key_destroy(&packet_header_key);
         return NULL;
     }
     
-- 
2.43.0


From 46c6bfdbfebb70a45356074c709cda07f70b1943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:11 +0000
Subject: [PATCH 46/52] fix: copying a context reports failure instead of
 writing through NULL

---
 src/wickrcrypto/src/wickr_ctx.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wickrcrypto/src/wickr_ctx.c b/src/wickrcrypto/src/wickr_ctx.c
index ccfef9c..c8004d6 100644
--- a/src/wickrcrypto/src/wickr_ctx.c
+++ b/src/wickrcrypto/src/wickr_ctx.c
@@ -449,6 +449,7 @@ wickr_ctx_t *wickr_ctx_copy(const wickr_ctx_t *ctx)
         wickr_dev_info_destroy(&dev_info_copy);
         wickr_identity_chain_destroy(&id_chain_copy);
         wickr_storage_keys_destroy(&storage_keys_copy);
+        return NULL;
     }
     
     copy->pkt_enc_version = ctx->pkt_enc_version;
-- 
2.43.0


From 6ff5deb4bf861742579e34ac043294ecc2a0214e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:11 +0000
Subject: [PATCH 47/52] fix: generating a context with recovery data reports
 failure instead of reading through NULL

---
 src/wickrcrypto/src/wickr_ctx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wickrcrypto/src/wickr_ctx.c b/src/wickrcrypto/src/wickr_ctx.c
index c8004d6..20d650f 100644
--- a/src/wickrcrypto/src/wickr_ctx.c
+++ b/src/wickrcrypto/src/wickr_ctx.c
@@ -164,6 +164,10 @@ wickr_ctx_gen_result_t *wickr_ctx_gen_with_recovery(const wickr_crypto_engine_t
     wickr_ctx_gen_result_t *gen_result = wickr_ctx_gen_with_root_keys(engine, dev_info, root_keys, identifier);
     wickr_root_keys_destroy(&root_keys);
     
+    if (!gen_result) {
+        return NULL;
+    }
+    
     /* Swap out the randomly assigned recovery key with the one that was specified */
     wickr_cipher_key_destroy(&gen_result->recovery_key);
     gen_result->recovery_key = wickr_cipher_key_copy(recovery_key);
-- 
2.43.0


From 44cc8f4844508e2f2eb7b75c4d3de1434a8f0610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:11 +0000
Subject: [PATCH 48/52] fix: the identity chain of a new context is released
 when it does not validate

---
 src/wickrcrypto/src/wickr_ctx.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/wickr_ctx.c b/src/wickrcrypto/src/wickr_ctx.c
index 20d650f..f8848b7 100644
--- a/src/wickrcrypto/src/wickr_ctx.c
+++ b/src/wickrcrypto/src/wickr_ctx.c
@@ -221,12 +221,17 @@ wickr_ctx_gen_result_t *wickr_ctx_gen_with_root_keys(const wickr_crypto_engine_t
     
     wickr_identity_chain_t *new_id_chain = wickr_identity_chain_create(root_identity, new_node_identity);
     
-    if (!new_id_chain || !wickr_identity_chain_validate(new_id_chain, &engine)) {
+    if (!new_id_chain) {
         wickr_identity_destroy(&new_node_identity);
         wickr_identity_destroy(&root_identity);
         return NULL;
     }
     
+    if (!wickr_identity_chain_validate(new_id_chain, &engine)) {
+        wickr_identity_chain_destroy(&new_id_chain);
+        return NULL;
+    }
+    
     wickr_storage_keys_t *new_storage_keys = wickr_root_keys_localize(root_keys, &engine, dev_info);
     
     if (!new_storage_keys) {
-- 
2.43.0


From 58ba6bb5a3935a7ac28ca9cc01ca67b5a57c6a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:11 +0000
Subject: [PATCH 49/52] fix: root keys without a private signature key are
 refused instead of read through NULL

---
 src/wickrcrypto/src/root_keys.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wickrcrypto/src/root_keys.c b/src/wickrcrypto/src/root_keys.c
index 3434e0a..9790304 100644
--- a/src/wickrcrypto/src/root_keys.c
+++ b/src/wickrcrypto/src/root_keys.c
@@ -125,6 +125,10 @@ wickr_root_keys_t *wickr_root_keys_create_from_buffer(const wickr_crypto_engine_
 
 wickr_buffer_t *wickr_root_keys_serialize(const wickr_root_keys_t *keys)
 {
+    if (!keys || !keys->node_signature_root->pri_data) {
+        return NULL;
+    }
+    
     Wickr__Proto__RootKeys rootkeys = WICKR__PROTO__ROOT_KEYS__INIT;
     rootkeys.version = CURRENT_ROOT_KEY_VERSION;
     
@@ -197,7 +201,7 @@ wickr_cipher_result_t *wickr_root_keys_export(const wickr_root_keys_t *keys, con
 
 wickr_storage_keys_t *wickr_root_keys_localize(const wickr_root_keys_t *keys, const wickr_crypto_engine_t *engine, const wickr_dev_info_t *dev_info)
 {
-    if (!keys || !dev_info) {
+    if (!keys || !engine || !dev_info) {
         return NULL;
     }
     
-- 
2.43.0


From c88b11f0323d9b3c791ec537f1cd2e34859d2dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:11 +0000
Subject: [PATCH 50/52] fix: a fingerprint that cannot be encoded is reported
 instead of read through NULL

---
 src/wickrcrypto/src/fingerprint.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wickrcrypto/src/fingerprint.c b/src/wickrcrypto/src/fingerprint.c
index d2801d6..87033b5 100644
--- a/src/wickrcrypto/src/fingerprint.c
+++ b/src/wickrcrypto/src/fingerprint.c
@@ -181,6 +181,10 @@ static wickr_buffer_t *__wickr_fingerprint_encode_for_output_mode(const wickr_fi
     
     wickr_buffer_t *encoded_fingerprint_data = enc_func(fingerprint->data);
     
+    if (!encoded_fingerprint_data) {
+        return NULL;
+    }
+    
     if (output_mode == FINGERPRINT_OUTPUT_SHORT) {
         size_t short_length = encoded_fingerprint_data->length / 2;
         
-- 
2.43.0


From 815bbe53844c275ac0993321962a8fd8bd4f4934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:41 +0000
Subject: [PATCH 51/52] fix: the keys in a storage key message are wiped before
 they are released

---
 src/wickrcrypto/src/storage_priv.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wickrcrypto/src/storage_priv.c b/src/wickrcrypto/src/storage_priv.c
index c517010..ef68fcf 100644
--- a/src/wickrcrypto/src/storage_priv.c
+++ b/src/wickrcrypto/src/storage_priv.c
@@ -11,6 +11,12 @@ void wickr_storage_keys_proto_free(Wickr__Proto__StorageKeys *proto_keys)
         return;
     }
     
+    if (proto_keys->local_storage.data) {
+        wickr_zero(proto_keys->local_storage.data, proto_keys->local_storage.len);
+    }
+    if (proto_keys->remote_storage.data) {
+        wickr_zero(proto_keys->remote_storage.data, proto_keys->remote_storage.len);
+    }
     wickr_free(proto_keys->local_storage.data);
     wickr_free(proto_keys->remote_storage.data);
     wickr_free(proto_keys);
-- 
2.43.0


From 686a8700e9066d32f172aeed5fd5372f62ffb339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:52 +0000
Subject: [PATCH 52/52] fix: rotating a node's keypair to itself or without
 memory no longer loses the keypair

---
 src/wickrcrypto/src/node.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/wickrcrypto/src/node.c b/src/wickrcrypto/src/node.c
index 0bb0253..3424c63 100644
--- a/src/wickrcrypto/src/node.c
+++ b/src/wickrcrypto/src/node.c
@@ -31,21 +31,20 @@ bool wickr_node_rotate_keypair(wickr_node_t *node, wickr_ephemeral_keypair_t *ne
         return false;
     }
     
-    wickr_ephemeral_keypair_destroy(&node->ephemeral_keypair);
+    wickr_ephemeral_keypair_t *keypair = copy ? wickr_ephemeral_keypair_copy(new_keypair) : new_keypair;
     
-    node->status = NODE_STATUS_UNKNOWN;
-    
-    if (copy) {
-        wickr_ephemeral_keypair_t *copy_keypair = wickr_ephemeral_keypair_copy(new_keypair);
-        if (!copy_keypair) {
-            return false;
-        }
-        node->ephemeral_keypair = copy_keypair;
+    if (!keypair) {
+        return false;
     }
-    else {
-        node->ephemeral_keypair = new_keypair;
+    
+    /* The keypair given may be the one the node already has */
+    if (keypair != node->ephemeral_keypair) {
+        wickr_ephemeral_keypair_destroy(&node->ephemeral_keypair);
     }
     
+    node->status = NODE_STATUS_UNKNOWN;
+    node->ephemeral_keypair = keypair;
+    
     return true;
 }
 
-- 
2.43.0

