"""Registry of proof units: which functions of /repo, under which contract file, decide which property."""
class Unit:
    def __init__(s, name, props, src, real, functions, **k):
        s.name = name; s.props = props.split(); s.src = src; s.real = real.split(); s.functions = functions.split()
        s.loops = []; s.udiv = []; s.loop_header = None; s.unwindset = {}; s.bounded = {}; s.unwind = None; s.flags = []; s.object_bits = 10
        s.dfcc = None; s.replace = []; s.defines = []; s.stubs = []; s.lib = ['c_zero.c']; s.timeout = 330; s.native = True; s.native_secs = 8
        s.native_libs = []; s.assumes = []; s.thorough_only = False; s.nofp = False; s.solver = None; s.weight = 1; s.hang_is_failure = False; s.split = False
        for a, b in k.items():
            if not hasattr(s, a): raise ValueError(a)
            if a in ('stubs', 'lib', 'defines', 'assumes_', 'replace') and isinstance(b, str): b = b.split()
            setattr(s, a, b)
        s.stubs = s.stubs + (['wickr_zero'] if 'c_zero.c' in s.lib else []) + (['wickr_buffer_concat_multi'] if 'c_concat.c' in s.lib else [])
        if 'c_concat.c' in s.lib: s.unwindset = dict(s.unwindset, **{'wickr_buffer_concat_multi.0': 7, 'wickr_buffer_concat_multi.1': 12, 'wickr_buffer_concat_multi.2': 7})

NO_BODY_OK = {'nondet_u64'}
TRUSTED = ['CBMC 6.11.0 (C front end, symbolic execution, memory model) and MiniSat 2.2.1',
           'CBMC built-in models of malloc/calloc/free/memcpy/memset/memcmp',
           'allocation model: an allocation of n>0 bytes returns a fresh object of exactly n bytes (or NULL where failures are injected)']
UNITS = []
def U(*a, **k): UNITS.append(Unit(*a, **k))

A_CMP = 'memcmp/CRYPTO_memcmp: contract (0 exactly for equal ranges; ghost index, witness index) instead of a body'
A_ZERO = 'wickr_zero is replaced by its contract (all bytes zero), proved by unit zero'
A_ENGINE = 'engine functions (hmac, random, encrypt, decrypt) are assumed contracts at the function-pointer boundary: they return NULL or a fresh well-formed object and do not modify their inputs'
EVOLVE = [('stream_ctx', '__wickr_stream_ctx_evolove_key_material', 0, 'v_loop_evolve(&curr_key, &curr_evo, seq_evo)')]
SC = dict(loops=EVOLVE, loop_header='stream_loop.h', unwindset={'__wickr_stream_ctx_evolove_key_material.0': 2}, bounded={'__wickr_stream_ctx_evolove_key_material.0': 3}, udiv=['stream_ctx'],
          assumes=[A_ENGINE, A_ZERO], weight=5)
U('stream_decode', 'C04 C05 C25', 'stream_ctx.c', 'stream_ctx', 'wickr_stream_ctx_decode __wickr_stream_ctx_evolove_key_material __wickr_stream_key_create_with_evo_buffer wickr_stream_key_copy wickr_stream_key_create_user_data wickr_stream_key_destroy', defines='H_DECODE', **SC)
U('stream_encode', 'C04 C05 C06 C25', 'stream_ctx.c', 'stream_ctx', 'wickr_stream_ctx_encode wickr_stream_iv_generate __wickr_stream_ctx_evolove_key_material', defines='H_ENCODE', **SC)
U('stream_create', 'C04 C06 C25', 'stream_ctx.c', 'stream_ctx', 'wickr_stream_ctx_create wickr_stream_iv_create wickr_stream_iv_destroy __wickr_stream_ctx_ref_down', defines='H_CREATE', assumes=[A_ENGINE, A_ZERO])
U('stream_copy', 'C21 C04 C25', 'stream_ctx.c', 'stream_ctx', 'wickr_stream_ctx_copy wickr_stream_iv_copy wickr_stream_key_copy wickr_stream_ctx_ref_up wickr_stream_ctx_destroy', defines='H_COPY', assumes=[A_ZERO])
BUF = 'units'
for m, fns in (('CREATE', 'wickr_buffer_create wickr_buffer_create_empty __wickr_buffer_create_empty wickr_buffer_create_empty_zero wickr_buffer_destroy wickr_buffer_destroy_zero'),
               ('COPY', 'wickr_buffer_copy wickr_buffer_copy_section __validate_buffer_range'), ('MODIFY', 'wickr_buffer_modify_section'),
               ('CONCAT', 'wickr_buffer_concat'), ('EQUAL', 'wickr_buffer_is_equal'), ('PROTO', 'wickr_buffer_to_protobytes wickr_buffer_from_protobytes'),
               ('MEM', 'wickr_alloc wickr_alloc_zero wickr_free')):
    U('buffer_' + m.lower(), 'C01 C25', 'buffer.c', 'buffer buffer_priv memory', fns, defines='H_' + m, assumes=[A_ZERO])
U('zero', 'C16', 'zero.c', 'memory', 'wickr_zero', lib=[], loops=[('memory', 'wickr_zero', 0, 'v_loop_zero(volatile_buf, &i, len)')], loop_header='zero_loop.h',
  unwindset={'wickr_zero.0': 2}, bounded={'wickr_zero.0': 5})
CM = {'wickr_buffer_concat_multi.0': 7, 'wickr_buffer_concat_multi.1': 7}
A_CM = 'wickr_buffer_concat_multi is inlined in callers and its two loops are fully unwound to the (constant, at most 5) number of components of the caller; its own contract for any count is unit concat_multi'
for m, ps, fns in (('CR_RT', 'C02 C25', 'wickr_cipher_result_serialize wickr_cipher_result_from_buffer wickr_cipher_result_destroy'), ('CR_PARSE', 'C02 C25', 'wickr_cipher_result_from_buffer wickr_cipher_find'),
               ('CR_COPY', 'C02 C21 C25', 'wickr_cipher_result_copy wickr_cipher_result_create wickr_cipher_result_is_valid'), ('CK', 'C02 C16 C21 C25', 'wickr_cipher_key_serialize wickr_cipher_key_from_buffer wickr_cipher_key_copy wickr_cipher_key_destroy'),
               ('CK_PARSE', 'C02 C25', 'wickr_cipher_key_from_buffer wickr_cipher_key_create'), ('ES_RT', 'C02 C21 C25', 'wickr_ecdsa_result_serialize wickr_ecdsa_result_create_from_buffer wickr_ecdsa_result_create wickr_ecdsa_result_copy wickr_ecdsa_result_destroy'),
               ('ES_PARSE', 'C02 C25', 'wickr_ecdsa_result_create_from_buffer wickr_ecdsa_result_from_protobytes wickr_cipher_key_from_protobytes wickr_cipher_result_from_protobytes wickr_ec_curve_find wickr_digest_find_with_id')):
    U('codec_' + m.lower(), ps, 'codec.c', 'cipher cipher_priv ecdsa ecdsa_priv', fns, defines='H_' + m, unwindset=CM, assumes=[A_ZERO, A_CM])
A_PB = 'protobuf-c (pack/unpack/free/get_packed_size of each message) is replaced by contracts (lib/pb.h); unpack(pack(m)) = m is assumed'
A_COLL = 'collision resistance of the digest used for status caches: equal digests only for equal content'
for m, ps, fns, w in (('VALIDATE', 'C07 C25', 'wickr_identity_chain_validate wickr_identity_chain_has_valid_cache wickr_identity_chain_make_status_cache wickr_identity_chain_update_status_cache', 5),
                   ('ID_SER', 'C07 C22 C25', 'wickr_identity_serialize wickr_identity_to_proto __wickr_identity_build_proto wickr_identity_proto_free', 3),
                   ('ID_PARSE', 'C07 C25', 'wickr_identity_create_from_proto wickr_identity_create wickr_ec_key_from_protobytes', 3), ('ID_PARSE2', 'C07 C25', 'wickr_identity_create_from_buffer', 3),
                   ('CH_SER', 'C07 C22 C25', 'wickr_identity_chain_serialize wickr_identity_chain_serialize_private __wickr_identity_chain_serialize __wickr_identity_chain_build_proto wickr_identity_chain_to_proto wickr_identity_chain_to_private_proto wickr_identity_to_private_proto wickr_identity_chain_proto_free', 6),
                   ('CH_PARSE', 'C07 C25', 'wickr_identity_chain_create_from_proto wickr_identity_chain_create', 6), ('CH_PARSE2', 'C07 C25', 'wickr_identity_chain_create_from_buffer wickr_identity_chain_destroy', 6),
                   ('COPY', 'C21 C25', 'wickr_identity_chain_copy', 6), ('COPY1', 'C21 C16 C25', 'wickr_identity_copy wickr_identity_destroy', 3), ('GEN', 'C07 C25', 'wickr_node_identity_gen', 5), ('SIGN', 'C07 C25', 'wickr_identity_sign', 1)):
    U('identity_' + m.lower(), ps, 'identity.c', 'identity identity_priv', fns, defines='H_' + m, unwindset=CM, assumes=[A_ZERO, A_CM, A_PB, A_ENGINE, A_COLL], weight=w, solver='cadical' if m == 'VALIDATE' else None)

S_CHAIN = 'wickr_identity_chain_validate wickr_identity_chain_has_valid_cache'
S_PROTO = 'wickr_identity_chain_to_proto wickr_ephemeral_keypair_to_proto wickr_identity_chain_create_from_proto wickr_ephemeral_keypair_create_from_proto'
A_IDC = 'contracts of identity chain functions (proved by the identity_* units) are used in the node units'
for m, ps, fns, w, d, st in (('VERIFY', 'C08 C25', 'wickr_node_verify_signature_chain wickr_node_has_valid_cache wickr_node_make_status_cache wickr_node_update_status_cache', 6, 'S_CHAIN', S_CHAIN),
                      ('ROTATE', 'C08 C25', 'wickr_node_rotate_keypair', 3, '', ''), ('NODE_SER', 'C08 C22 C25', 'wickr_node_serialize wickr_node_to_proto wickr_node_proto_free', 3, 'S_PROTO', S_PROTO),
                      ('NODE_PARSE', 'C08 C25', 'wickr_node_create_from_proto wickr_node_create wickr_node_destroy', 4, 'S_PROTO', S_PROTO), ('NODE_PARSE2', 'C08 C25', 'wickr_node_create_from_buffer', 4, 'S_PROTO', S_PROTO),
                      ('NODE_COPY', 'C21 C25', 'wickr_node_copy', 6, 'S_COPY', 'wickr_identity_chain_copy wickr_ephemeral_keypair_copy'), ('KP_SER', 'C08 C22 C25', 'wickr_ephemeral_keypair_to_proto wickr_ephemeral_keypair_serialize wickr_ephemeral_keypair_proto_free', 3, '', ''),
                      ('KP_PARSE', 'C08 C25', 'wickr_ephemeral_keypair_create_from_proto wickr_ephemeral_keypair_create_from_buffer wickr_ephemeral_keypair_create', 3, '', ''),
                      ('KP', 'C08 C16 C21 C22 C25', 'wickr_ephemeral_keypair_verify_owner wickr_ephemeral_keypair_copy wickr_ephemeral_keypair_make_public wickr_ephemeral_keypair_destroy', 4, '', ''),
                      ('KP_GEN', 'C08 C25', 'wickr_ephemeral_keypair_generate_identity', 2, '', '')):
    U('node_' + m.lower(), ps, 'node.c', 'node node_priv ephemeral_keypair ephemeral_keypair_priv', fns, defines=('H_%s %s' % (m, d)).strip(), stubs=st, unwindset=CM, weight=w,
      solver='cadical' if m == 'VERIFY' else None,
       assumes=[A_ZERO, A_CM, A_PB, A_ENGINE] + ([A_IDC] if d else []) + ([A_COLL] if m == 'VERIFY' else []))
A_ITEM = 'array items are opaque tokens, pairwise different within one array; item copy/destroy functions are contracts'
AL = dict(loop_header='array_loop.h', assumes=[A_ITEM])
U('array_new', 'C14 C25', 'array.c', 'array', 'wickr_array_new wickr_array_get_item_count', defines='H_NEW', stubs='wickr_buffer_create_empty_zero', assumes=[A_ITEM])
U('array_item', 'C14 C25', 'array.c', 'array', 'wickr_array_set_item wickr_array_fetch_item __wickr_array_pointer_to_index __wickr_array_index_in_bounds', defines='H_ITEM', stubs='wickr_buffer_create_empty_zero', assumes=[A_ITEM])
U('array_copy', 'C14 C21 C25', 'array.c', 'array', 'wickr_array_copy', defines='H_COPY S_DESTROY', stubs='wickr_buffer_create_empty_zero wickr_array_destroy',
  loops=[('array', 'wickr_array_copy', 0, 'v_loop_copy(&copy_array, &i, array, deep_copy)')], unwindset={'wickr_array_copy.0': 2}, bounded={'wickr_array_copy.0': 4}, **AL)
U('array_destroy', 'C14 C25', 'array.c', 'array', 'wickr_array_destroy', defines='H_DESTROY', stubs='wickr_buffer_create_empty_zero',
  loops=[('array', 'wickr_array_destroy', 0, 'v_loop_destroy(*array, &i)')], unwindset={'wickr_array_destroy.0': 2}, bounded={'wickr_array_destroy.0': 4}, **AL)
U('concat_multi', 'C01 C25', 'concat.c', 'buffer', 'wickr_buffer_concat_multi', defines='H', loop_header='concat_loop.h',
  loops=[('buffer', 'wickr_buffer_concat_multi', 0, 'v_loop_count(buffers, &i, n_buffers, &count)'), ('buffer', 'wickr_buffer_concat_multi', 1, 'v_loop_merge(buffers, &i, n_buffers, &count, merged_buffer)')],
  unwindset={'wickr_buffer_concat_multi.0': 2, 'wickr_buffer_concat_multi.1': 2}, bounded={'*': 6, 'wickr_buffer_concat_multi.0': 6, 'wickr_buffer_concat_multi.1': 6, 'harness.0': 6, 'harness.1': 6},
  assumes=['prefix sums of buffer lengths are mathematical (uninterpreted sequence with its recurrence and monotonicity)'])
A_CAT = 'wickr_buffer_concat_multi is replaced by its contract (contents in order), proved by unit concat_multi'
S_PKT = 'wickr_identity_chain_validate wickr_identity_sign'
for m, ps, fns, w in (('META', 'C03 C25', 'wickr_transport_packet_meta_serialize wickr_transport_packet_meta_initialize_buffer wickr_transport_packet_meta_initialize_handshake wickr_transport_packet_meta_initialize_data', 1),
                   ('SER', 'C03 C25', 'wickr_transport_packet_serialize', 3), ('RT', 'C03 C25', 'wickr_transport_packet_serialize wickr_transport_packet_create_from_buffer', 3), ('PARSE', 'C03 C25', 'wickr_transport_packet_create_from_buffer wickr_transport_packet_destroy', 2),
                   ('SIGN', 'C03 C25', 'wickr_transport_packet_sign', 3), ('VERIFY', 'C03 C25', 'wickr_transport_packet_verify', 3), ('COPY', 'C21 C25', 'wickr_transport_packet_copy wickr_transport_packet_create', 2)):
    U('packet_' + m.lower(), ps, 'packet.c', 'transport_packet', fns, defines='H_' + m + ' V_CAT_HEAD=10', stubs=S_PKT, lib='c_zero.c c_concat.c', weight=w, assumes=[A_ZERO, A_CAT, A_ENGINE, A_IDC])
S_ARR = 'wickr_array_get_item_count wickr_array_fetch_item wickr_array_new wickr_array_set_item wickr_array_copy wickr_array_destroy'
S_CR = 'wickr_cipher_result_serialize wickr_cipher_result_from_buffer'
A_ARR = 'contracts of arrays (proved by the array_* units) are used for exchange arrays and node arrays'
A_CR = 'contracts of the cipher result codec (proved by the codec_* units) are used'
KL = dict(loop_header='kex_loop.h')
FIND = dict(loops=[('key_exchange', 'wickr_key_exchange_set_find', 0, 'v_loop_find(&i, exchange_set)')], unwindset={'wickr_key_exchange_set_find.0': 2}, bounded={'wickr_key_exchange_set_find.0': 5, 'mk_items.0': 4, 'wickr_buffer_is_equal.0': 4}, **KL)
U('kex_copy', 'C10 C21 C25', 'kex.c', 'key_exchange', 'wickr_key_exchange_copy wickr_key_exchange_create wickr_key_exchange_destroy', defines='H_COPY', stubs=S_ARR, assumes=[A_ZERO], weight=2)
for m in ('FIND', 'FIND2'):
    U('kex_' + m.lower(), 'C10 C25', 'kex.c', 'key_exchange', 'wickr_key_exchange_set_find', defines='H_%s S_EQ' % m, stubs=S_ARR + ' wickr_buffer_is_equal', assumes=[A_ZERO, A_ARR], weight=2, **FIND)
U('kex_setcopy', 'C21 C25', 'kex.c', 'key_exchange', 'wickr_key_exchange_set_copy wickr_key_exchange_set_create wickr_key_exchange_set_destroy wickr_exchange_array_copy', defines='H_SETCOPY', stubs=S_ARR, assumes=[A_ZERO, A_ARR], weight=2)
U('kex_ser', 'C10 C25', 'kex.c', 'key_exchange', 'wickr_key_exchange_set_serialize __wickr_key_exchange_set_to_proto __wickr_key_exchange_set_proto_free __wickr_key_exchange_proto_free __wickr_key_exchange_to_proto __wickr_key_exchange_proto_array_destroy', defines='H_SER S_CR', stubs=S_ARR + ' ' + S_CR,
  loops=[('key_exchange', '__wickr_key_exchange_set_to_proto', 0, 'v_loop_ser(&i, exchanges, num_exchanges)'), ('key_exchange', '__wickr_key_exchange_proto_array_destroy', 0, 'v_loop_free(&i, exchanges, num_exchanges)')],
  unwindset={'__wickr_key_exchange_set_to_proto.0': 2, '__wickr_key_exchange_proto_array_destroy.0': 2}, bounded={'__wickr_key_exchange_set_to_proto.0': 4, '__wickr_key_exchange_proto_array_destroy.0': 4, 'mk_items.0': 4},
  assumes=[A_ZERO, A_ARR, A_CR, A_PB], weight=3, **KL)
U('kex_parse', 'C10 C25', 'kex.c', 'key_exchange', 'wickr_key_exchange_set_create_from_buffer __wickr_key_exchange_set_create_with_proto __wickr_key_exchange_create_with_proto', defines='H_PARSE S_CR', stubs=S_ARR + ' ' + S_CR,
  loops=[('key_exchange', '__wickr_key_exchange_set_create_with_proto', 0, 'v_loop_parse(&i, &exchanges, exchange_set_proto)')], unwindset={'__wickr_key_exchange_set_create_with_proto.0': 2},
  bounded={'__wickr_key_exchange_set_create_with_proto.0': 4, 'mk_items.0': 4, 'mk_pb_key_exchange_set.0': 4}, assumes=[A_ZERO, A_ARR, A_CR, A_PB, A_ENGINE], weight=3, **KL)
U('kex_cipher', 'C11 C16 C25', 'kex.c', 'key_exchange', 'wickr_key_exchange_set_encrypt wickr_key_exchange_set_create_from_cipher', defines='H_CIPHER S_SET', stubs=S_ARR + ' wickr_key_exchange_set_serialize wickr_key_exchange_set_create_from_buffer', assumes=[A_ZERO, A_ENGINE], weight=2)
for m, ps, fns, d, st in (('SER', 'C09 C25', 'wickr_payload_serialize', '', ''), ('PARSE', 'C09 C25', 'wickr_payload_create_from_buffer wickr_payload_create wickr_packet_meta_create', '', ''),
                       ('COPY', 'C21 C16 C25', 'wickr_payload_copy wickr_packet_meta_copy wickr_payload_destroy wickr_packet_meta_destroy', '', ''), ('CIPHER', 'C09 C11 C16 C25', 'wickr_payload_encrypt wickr_payload_create_from_cipher', 'S_SER', 'wickr_payload_serialize wickr_payload_create_from_buffer')):
    U('payload_' + m.lower(), ps, 'payload.c', 'payload packet_meta', fns, defines=('H_%s %s' % (m, d)).strip(), stubs=st, assumes=[A_ZERO, A_PB, A_ENGINE])
A_KDF = 'wickr_perform_kdf_meta is an assumed contract in the units of its callers: it returns NULL or output_size bytes, and does not modify its inputs'
for m, ps, fns in (('CIPHER', 'C10 C16 C25', 'wickr_ecdh_cipher_ctx_cipher __wickr_ecdh_cipher_ctx_gen_cipher_key'), ('DECIPHER', 'C10 C16 C25', 'wickr_ecdh_cipher_ctx_decipher __wickr_ecdh_cipher_ctx_gen_cipher_key'),
                   ('CTX', 'C10 C16 C21 C25', 'wickr_ecdh_cipher_ctx_create_key wickr_ecdh_cipher_ctx_create wickr_ecdh_cipher_ctx_copy wickr_ecdh_cipher_ctx_destroy')):
    U('ecdh_' + m.lower(), ps, 'ecdh.c', 'ecdh_cipher_ctx', fns, defines='H_' + m, stubs='wickr_perform_kdf_meta wickr_kdf_result_destroy', assumes=[A_ZERO, A_ENGINE, A_KDF], weight=2)
S_ECDH = 'wickr_ecdh_cipher_ctx_create_key wickr_ecdh_cipher_ctx_destroy wickr_ecdh_cipher_ctx_cipher wickr_ecdh_cipher_ctx_decipher wickr_kdf_meta_create wickr_kdf_meta_destroy wickr_cipher_key_serialize wickr_cipher_key_from_buffer'
A_ECDH = 'contracts of the key agreement cipher (proved by the ecdh_* units) and of wickr_kdf_meta_create/destroy (kdf.c) are used'
KX = dict(lib='c_zero.c c_concat.c', weight=3, assumes=[A_ZERO, A_CAT, A_ECDH])
F_KX = '__wickr_key_exchange_get_kdf_info __wickr_key_exchange_get_kdf_meta'
U('proto_kex_data', 'C10 C25', 'protocol.c', 'protocol', 'wickr_key_exchange_create_with_data ' + F_KX, defines='H_KEX_CREATE H_DATA S_ECDH', stubs=S_ECDH, **KX)
U('proto_kex_key', 'C10 C16 C25', 'protocol.c', 'protocol', 'wickr_key_exchange_create_with_packet_key wickr_exchange_cipher_matching_cipher', defines='H_KEX_CREATE S_ECDH', stubs=S_ECDH, **KX)
U('proto_derive_data', 'C10 C25', 'protocol.c', 'protocol', 'wickr_key_exchange_derive_data ' + F_KX, defines='H_DERIVE H_DATA S_ECDH', stubs=S_ECDH, **KX)
U('proto_derive_key', 'C10 C16 C25', 'protocol.c', 'protocol', 'wickr_key_exchange_derive_packet_key', defines='H_DERIVE S_ECDH', stubs=S_ECDH, **KX)
S_SIG = 'wickr_ecdsa_result_serialize wickr_ecdsa_result_create_from_buffer'
A_SIG = 'contracts of the signature codec (proved by the codec_es_* units) are used'
for m, ps, fns in (('PKT_SER', 'C09 C25', 'wickr_packet_serialize'), ('PKT_PARSE', 'C09 C25', 'wickr_packet_create_from_buffer wickr_digest_matching_curve wickr_ec_curve_find'), ('PKT_RT', 'C09', 'wickr_packet_serialize wickr_packet_create_from_buffer')):
    U('proto_' + m.lower(), ps, 'protocol.c', 'protocol', fns, defines='H_%s S_SIG V_CAT_HEAD=2' % m, stubs=S_SIG, lib='c_zero.c c_concat.c', weight=2, assumes=[A_ZERO, A_CAT, A_SIG])
U('proto_pkt_copy', 'C09 C21 C25', 'protocol.c', 'protocol', 'wickr_packet_copy wickr_packet_create wickr_packet_destroy', defines='H_PKT_COPY', assumes=[A_ZERO])
U('proto_pkt_create', 'C09 C25', 'protocol.c', 'protocol', 'wickr_packet_create_with_components', defines='H_PKT_CREATE S_CRSER', stubs='wickr_cipher_result_serialize', assumes=[A_ZERO, A_CR, A_PB, A_ENGINE])
U('proto_components', 'C09 C10 C11 C25', 'protocol.c', 'protocol', 'wickr_packet_create_from_components __wickr_recipients_validate wickr_exchange_array_new wickr_exchange_array_set_item wickr_exchange_array_destroy wickr_node_array_fetch_item', defines='H_COMPONENTS S_RCPT',
  stubs=S_ARR + ' wickr_node_verify_signature_chain wickr_key_exchange_create_with_packet_key wickr_key_exchange_set_encrypt wickr_payload_encrypt wickr_packet_create_with_components',
  loops=[('protocol', '__wickr_recipients_validate', 0, 'v_loop_validate(&i, recipients, recipient_count)'), ('protocol', 'wickr_packet_create_from_components', 0, 'v_loop_wrap(&i, &exchange_array, recipient_count)')], loop_header='protocol_loop.h',
  unwindset={'__wickr_recipients_validate.0': 2, 'wickr_packet_create_from_components.0': 2}, bounded={'__wickr_recipients_validate.0': 4, 'wickr_packet_create_from_components.0': 4, 'mk_nodes.0': 4}, weight=3,
  assumes=[A_ZERO, A_ARR, A_IDC, 'at most INT_MAX recipients (an array of more cannot be allocated with 32-bit item counts in practice)', 'contracts of the exchange, payload and packet functions (proved by the proto_*, kex_* and payload_* units) are used'])
U('proto_parse', 'C09 C11 C25', 'protocol.c', 'protocol', 'wickr_parse_result_from_packet __wickr_parse_result_create wickr_parse_result_create_failure wickr_parse_result_create_success', defines='H_PARSE S_PARSE S_CRPARSE S_ARRD',
  stubs='wickr_cipher_result_from_buffer wickr_key_exchange_set_create_from_cipher wickr_key_exchange_set_find wickr_array_destroy', assumes=[A_ZERO, A_CR, A_PB, A_ENGINE, 'contracts of the exchange set functions (proved by the kex_* units) are used'], weight=3)
U('proto_decode', 'C11 C16 C25', 'protocol.c', 'protocol', 'wickr_decode_result_from_parse_result __wickr_decode_result_create wickr_decode_result_create_failure wickr_decode_result_create_success', defines='H_DECODE S_DEC S_ARRD',
  stubs='wickr_key_exchange_derive_packet_key wickr_payload_create_from_cipher wickr_array_destroy', assumes=[A_ZERO, 'contracts of key derivation and payload decryption (proved by the proto_* and payload_* units) are used'], weight=3)
U('proto_parse_copy', 'C21 C25', 'protocol.c', 'protocol', 'wickr_parse_result_copy wickr_parse_result_destroy', defines='H_RESULT S_SETCOPY S_ARRD', stubs='wickr_key_exchange_set_copy wickr_array_destroy', assumes=[A_ZERO], weight=2)
U('proto_decode_copy', 'C16 C21 C25', 'protocol.c', 'protocol', 'wickr_decode_result_copy wickr_decode_result_destroy', defines='H_RESULT H_DECRES', assumes=[A_ZERO], weight=2)
A_STR = 'strlen, memchr and strtol are used by contract'
CO = dict(loop_header='coding_loop.h', assumes=[A_ZERO, A_STR], weight=3)
def B32(**k): return dict({'__base32_encode_base32.1': 6, '__base32_decode_base32.1': 9, '__base32_encode_block.0': 6, '__base32_encode_block.1': 9, '__base32_decode_block.0': 9, '__base32_decode_block.1': 6, '__base32_decode_reverse_map.0': 33,
                           'enc32v.0': 6, 'dec32.0': 9}, **k)
U('coding_b64_enc', 'C15 C25', 'coding.c', 'util', 'getBase64FromData', defines='H_B64_ENC V_STRINGS', loops=[('util', 'getBase64FromData', 0, 'v_loop_enc64(&objPointer, &objRawData, &intLength, strResult)')],
  solver='cadical', split=True,
  unwindset={'getBase64FromData.0': 2}, bounded={'getBase64FromData.0': 3}, **CO)
for m in ('B64_DEC', 'B64_ANY'):
    U('coding_' + m.lower(), 'C15 C25', 'coding.c', 'util', 'getDataFromBase64', defines='H_%s V_STRINGS' % m, loops=[('util', 'getDataFromBase64', 0, 'v_loop_dec64(&i, &j, &objPointer, &intLength, &intCurrent, &objResult)')],
      unwindset={'getDataFromBase64.0': 2}, bounded={'getDataFromBase64.0': 9, 'harness.0': 9, 'harness.1': 4}, **CO)
U('coding_hex_enc', 'C15 C25', 'coding.c', 'util', 'getHexStringFromData nibbleToChar', defines='H_HEX_ENC V_STRINGS', loops=[('util', 'getHexStringFromData', 0, 'v_loop_hexenc(&i, retval)')], unwindset={'getHexStringFromData.0': 2}, bounded={'getHexStringFromData.0': 5}, **CO)
U('coding_hex_dec', 'C15 C25', 'coding.c', 'util', 'getDataFromHexString strToChar', defines='H_HEX_DEC V_STRINGS', loops=[('util', 'getDataFromHexString', 0, 'v_loop_hexdec(&i, &index, length, result)')], unwindset={'getDataFromHexString.0': 2}, bounded={'getDataFromHexString.0': 5}, **CO)
U('coding_b32_enc', 'C15 C25', 'coding.c', 'b32', 'base32_encode __base32_encode_base32 __base32_encode_block __base32_encode_map __base32_encode_length', defines='H_B32_ENC V_STRINGS',
  loops=[('b32', '__base32_encode_base32', 0, 'v_loop_enc32(&j, out)'), ('b32', '__base32_encode_map', 0, 'v_loop_map32(&i, inout32, inout32_len)')],
  unwindset=B32(**{'__base32_encode_base32.0': 2, '__base32_encode_map.0': 2}), bounded={'*': 10, '__base32_encode_base32.0': 3, '__base32_encode_map.0': 17}, solver='cadical', split=True, **CO)
U('coding_b32_dec', 'C15 C25', 'coding.c', 'b32', 'base32_decode __base32_decode_base32 __base32_decode_block __base32_decode_unmap __base32_decode_reverse_map __base32_decode_length', defines='H_B32_DEC V_STRINGS',
  loops=[('b32', '__base32_decode_base32', 0, 'v_loop_dec32(&j, in, out)'), ('b32', '__base32_decode_unmap', 0, 'v_loop_unmap32(&i, inout32, inout32_len)')],
  unwindset=B32(**{'__base32_decode_base32.0': 2, '__base32_decode_unmap.0': 2}), bounded={'*': 10, '__base32_decode_base32.0': 3, '__base32_decode_unmap.0': 17}, solver='cadical', split=True, **CO)
U('coding_lemma', 'C15', 'coding.c', 'util', 'specification lemmas: the specified decodings invert the specified encodings', defines='H_LEMMA V_STRINGS', unwindset={'enc32v.0': 6, 'dec32.0': 9, 'harness.0': 6, 'harness.1': 4, 'harness.2': 9, 'harness.3': 6, 'harness.4': 65}, assumes=[], native=False)

A_OSSL = 'OpenSSL (RAND, EVP digests/ciphers/signatures/derivation, EC keys, ECDSA_SIG, BN, HMAC) is replaced by contracts over ghost records: every call may fail, output is written in full bounds, GCM decryption completes only if the expected tag was set and verified'
A_FILE = 'stdio (fread, fwrite, ferror, feof, rewind, fopen, fclose, rename, remove, snprintf) is replaced by contracts: any call may fail or be short; a short read means end of file or an error'
OS = dict(assumes=[A_ZERO, A_CMP, A_OSSL], weight=2)
OSF = 'openssl_suite buffer cipher cipher_priv eckey ecdsa memory digest'
PK = '__openssl_evp_public_key_from_buffer __openssl_evp_private_key_from_buffer __openssl_evp_ec_key_from_buffer'
for m, ps, fns in (('RANDOM', 'C18 C25', 'openssl_crypto_random openssl_cipher_key_random'), ('ENC', 'C18 C25', 'openssl_aes256_encrypt __openssl_get_cipher_mode'), ('DEC', 'C18 C16 C25', 'openssl_aes256_decrypt __openssl_get_cipher_mode'),
                   ('SHA2', 'C19 C25', 'openssl_sha2 __openssl_sha2_initialize_ctx __openssl_get_digest_mode'), ('RANDKEY', 'C19 C16 C25', 'openssl_ec_rand_key __openssl_ec_pri_key_to_buffer __openssl_ec_pub_key_to_buffer __openssl_get_ec_nid'),
                   ('IMPORT', 'C19 C16 C25', 'openssl_ec_key_import __openssl_get_pkey_ec_curve ' + PK), ('SIGN', 'C19 C25', 'openssl_ec_sign __openssl_digest_sign_operation __openssl_digest_sign_ctx_create __openssl_digest_ctx_create'),
                   ('VERIFY', 'C19 C25', 'openssl_ec_verify __openssl_digest_verify_ctx_create ' + PK), ('TORAW', 'C19 C25', 'openssl_ecdsa_to_raw __openssl_ecdsa_bn_to_bin'), ('FROMRAW', 'C19 C25', 'openssl_ecdsa_from_raw'),
                   ('SECRET', 'C19 C25', 'openssl_gen_shared_secret ' + PK), ('HMAC', 'C19 C25', 'openssl_hmac_create'), ('HMACV', 'C19 C25', 'openssl_hmac_verify openssl_hmac_create'), ('HKDF', 'C19 C25', 'openssl_hkdf openssl_hkdf_expand __openssl_hkdf_internal')):
    U('openssl_' + m.lower(), ps, 'openssl.c', OSF, fns, defines='H_' + m, **OS)
OFL = dict(lib='c_zero.c c_concat.c', loop_header='openssl_loop.h', assumes=[A_ZERO, A_CMP, A_OSSL, A_FILE, A_CM], weight=3, flags=['--arrays-uf-always'])
U('openssl_sha2file', 'C19 C25', 'openssl.c', OSF, 'openssl_sha2_file', defines='H_SHA2FILE V_FILES', loops=[('openssl_suite', 'openssl_sha2_file', 0, 'v_loop_sha(c, &hash_result)')], unwindset={'openssl_sha2_file.0': 2}, bounded={'openssl_sha2_file.0': 4}, **OFL)
U('openssl_encfile', 'C20 C25', 'openssl.c', OSF, 'openssl_encrypt_file', defines='H_ENCFILE V_FILES', loops=[('openssl_suite', 'openssl_encrypt_file', 0, 'v_loop_enc(&outlength, ctx)')], unwindset={'openssl_encrypt_file.0': 2}, bounded={'openssl_encrypt_file.0': 4}, **OFL)
U('openssl_decfile', 'C20 C25', 'openssl.c', OSF, 'openssl_decrypt_file', defines='H_DECFILE V_FILES', loops=[('openssl_suite', 'openssl_decrypt_file', 0, 'v_loop_dec(&outlength, ctx)')], unwindset={'openssl_decrypt_file.0': 2}, bounded={'openssl_decrypt_file.0': 4}, **OFL)
U('openssl_fileops', 'C20 C25', 'openssl.c', 'openssl_file_suite', 'openssl_aes256_file_encrypt openssl_aes256_file_decrypt createFileOperation freeFileOperation aesFileOpMoveTempToDestination aesFileOpCloseSourceAndDestination aesFileOpRemoveTempFile',
  defines='H_FILEOPS V_FILES', stubs='openssl_encrypt_file openssl_decrypt_file', assumes=[A_ZERO, A_FILE])
U('openssl_engine', 'C18 C19 C20', 'openssl.c', 'crypto_engine', 'wickr_crypto_engine_get_default', defines='H_ENGINE', assumes=[])

S_KDFR = 'wickr_kdf_result_destroy'
for m, ps, fns in (('CREATE', 'C04 C12 C16 C25', 'wickr_transport_root_key_create wickr_transport_root_key_create_random wickr_stream_key_create_rand'), ('COPY', 'C16 C21 C25', 'wickr_transport_root_key_copy wickr_transport_root_key_destroy'),
                   ('STREAM', 'C12 C16 C25', 'wickr_transport_root_key_to_stream_key wickr_stream_key_create'), ('PROTO', 'C12 C16 C25', 'wickr_transport_root_key_to_proto wickr_transport_root_key_from_proto wickr_transport_root_key_proto_free'),
                   ('PARSE', 'C12 C25', 'wickr_transport_root_key_from_proto'), ('SK_SER', 'C02 C16 C25', 'wickr_stream_key_serialize wickr_stream_key_to_proto wickr_stream_key_proto_free'),
                   ('SK_PARSE', 'C02 C25', 'wickr_stream_key_create_from_buffer wickr_stream_key_create_from_proto')):
    U('rootkey_' + m.lower(), ps, 'rootkey.c', 'transport_root_key transport_root_key_priv stream_key stream_key_priv cipher cipher_priv', fns, defines='H_' + m, stubs=S_KDFR, lib='c_zero.c c_concat.c', assumes=[A_ZERO, A_PB, A_ENGINE])

S_CH = 'wickr_identity_chain_copy wickr_identity_chain_destroy wickr_identity_chain_to_proto wickr_identity_chain_proto_free wickr_identity_chain_create_from_proto wickr_identity_chain_serialize'
S_HS = S_CH + ' wickr_array_new wickr_array_set_item wickr_array_fetch_item wickr_array_copy wickr_array_destroy wickr_transport_packet_sign wickr_transport_packet_verify wickr_kdf_meta_create wickr_kdf_meta_destroy wickr_ecdh_cipher_ctx_create wickr_ecdh_cipher_ctx_create_key wickr_ecdh_cipher_ctx_destroy wickr_ecdh_cipher_ctx_cipher wickr_ecdh_cipher_ctx_decipher wickr_cipher_result_from_buffer wickr_cipher_result_serialize ' \
  + ' '.join('wickr_transport_root_key_' + x for x in ('create_random', 'copy', 'destroy', 'to_proto', 'proto_free', 'from_proto', 'to_stream_key'))
A_HS = 'contracts of identity chains, arrays, packet signing and verification, key agreement and root keys (proved by the identity_*, array_*, packet_*, ecdh_* and rootkey_* units) are used'
F_HS = '__wickr_transport_handshake_process_packet __wickr_transport_handshake_process_remote_identity __wickr_transport_handshake_kdf_meta_gen'
for m, ps, fns, w in (('SEED', 'C12 C22 C25', 'wickr_proto_handshake_seed_create wickr_proto_handshake_create_with_seed wickr_proto_handshake_seed_free wickr_proto_handshake_free', 1),
                   ('RESPONSE', 'C12 C22 C25', 'wickr_proto_handshake_response_create wickr_proto_handshake_create_with_response wickr_proto_handshake_response_free wickr_proto_handshake_free', 1),
                   ('DATA', 'C12 C25', 'wickr_proto_handshake_response_data_create wickr_proto_handshake_response_data_serialize wickr_proto_handshake_response_data_from_buffer wickr_proto_handshake_response_data_free', 1),
                   ('PACKET', 'C12 C25', 'wickr_proto_handshake_to_packet wickr_proto_handshake_serialize wickr_proto_handshake_from_packet wickr_proto_handshake_from_buffer wickr_transport_packet_create', 1),
                   ('CREATE', 'C12 C25', 'wickr_transport_handshake_create __wickr_transport_handshake_create wickr_transport_handshake_get_status wickr_transport_handshake_get_local_identity wickr_transport_handshake_get_remote_identity', 1), ('START', 'C12 C22 C25', 'wickr_transport_handshake_start __wickr_transport_handshake_build_signed_packet', 3),
                   ('INIT', 'C12 C16 C22 C25', 'wickr_transport_handshake_process __wickr_transport_handshake_process_initial __wickr_transport_handshake_build_signed_packet ' + F_HS, 5), ('RESP', 'C12 C16 C25', 'wickr_transport_handshake_process __wickr_transport_handshake_process_response ' + F_HS, 5),
                   ('ORDER', 'C12 C25', 'wickr_transport_handshake_process wickr_transport_handshake_finalize', 1), ('VERIFY', 'C12 C16 C25', 'wickr_transport_handshake_verify_identity', 1), ('FINAL', 'C12 C25', 'wickr_transport_handshake_finalize wickr_transport_handshake_res_create', 3),
                   ('COPY', 'C16 C21 C25', 'wickr_transport_handshake_copy wickr_transport_handshake_destroy wickr_transport_packet_copy', 2), ('RES', 'C12 C16 C21 C25', 'wickr_transport_handshake_res_create wickr_transport_handshake_res_copy wickr_transport_handshake_res_destroy', 2)):
    U('handshake_' + m.lower(), ps, 'handshake.c', 'transport_handshake transport_handshake_priv transport_packet', fns, defines='H_' + m + (' V_PAYLOAD_STRUCT' if m == 'RESP' else ''), stubs=S_HS, lib='c_zero.c c_concat.c', weight=w, assumes=[A_ZERO, A_CAT, A_PB, A_ENGINE, A_HS])

A_SCRYPT = 'scrypt and bcrypt (third party, not built here) and HKDF (unit openssl_hkdf) are trusted to derive a key from exactly the bytes they are given'
S_KDF = 'libscrypt_scrypt crypt_rn crypt_gensalt_rn openssl_crypto_random openssl_hkdf openssl_hkdf_expand'
for m, ps, fns, w in (('META', 'C16 C17 C25', 'wickr_kdf_meta_create wickr_kdf_meta_serialize wickr_kdf_meta_size_with_buffer wickr_kdf_meta_create_with_buffer __find_dkf_algo_with_id wickr_kdf_meta_destroy', 2),
                   ('PARSE', 'C17 C25', 'wickr_kdf_meta_size_with_buffer wickr_kdf_meta_create_with_buffer __find_dkf_algo_with_id', 1), ('EXPAND', 'C19 C25', 'wickr_kdf_meta_create_hkdf_expand wickr_hkdf_algo_for_digest', 1),
                   ('COPY', 'C16 C21 C25', 'wickr_kdf_meta_copy wickr_kdf_result_copy wickr_kdf_result_create wickr_kdf_result_destroy wickr_kdf_meta_destroy', 1),
                   ('PERFORM', 'C16 C17 C25', 'wickr_perform_kdf_meta __kdf_algo_hash __scrypt_generate_hash __bcrypt_generate_hash __hkdf_generate_hash', 3),
                   ('GEN', 'C17 C25', 'wickr_perform_kdf __kdf_algo_generate_salt __openssl_generate_salt', 2), ('BCSALT', 'C16 C17 C25', 'wickr_perform_kdf __bcrypt_generate_salt', 2)):
    U('kdf_' + m.lower(), ps, 'kdf.c', 'kdf', fns, defines='H_' + m, stubs=S_KDF, lib='c_zero.c', weight=w, assumes=[A_ZERO, A_SCRYPT], unwindset={'crypt_rn.0': 62, 'strlen.0': 66, 'crypt_gensalt_rn.0': 32})
for m, ps, fns, w in (('CIPHER', 'C16 C17 C25', 'wickr_crypto_engine_kdf_cipher', 2), ('DECIPHER', 'C16 C17 C25', 'wickr_crypto_engine_kdf_decipher __wickr_cipher_key_from_kdf', 2), ('RT', 'C17', 'wickr_crypto_engine_kdf_cipher wickr_crypto_engine_kdf_decipher', 2)):
    U('kdf_engine_' + m.lower(), ps, 'kdf.c', 'crypto_engine kdf', fns, defines='H_' + m, stubs=S_KDF + ' wickr_cipher_result_serialize wickr_cipher_result_from_buffer', lib='c_zero.c', weight=w, assumes=[A_ZERO, A_ENGINE, A_CR if 'A_CR' in globals() else A_SCRYPT])

for m, ps, fns, w in (('RK_GEN', 'C24 C25', 'wickr_root_keys_generate wickr_root_keys_create wickr_storage_keys_create', 1), ('RK_SER', 'C16 C24 C25', 'wickr_root_keys_serialize', 1), ('RK_RT', 'C16 C24 C25', 'wickr_root_keys_serialize wickr_root_keys_create_from_buffer', 2),
                   ('RK_PARSE', 'C24 C25', 'wickr_root_keys_create_from_buffer', 1), ('RK_EXPORT', 'C16 C24 C25', 'wickr_root_keys_export', 1), ('RK_LOCAL', 'C16 C24 C25', 'wickr_root_keys_localize', 1),
                   ('RK_COPY', 'C16 C21 C25', 'wickr_root_keys_copy wickr_root_keys_destroy', 1), ('SK_COPY', 'C16 C21 C25', 'wickr_storage_keys_copy wickr_storage_keys_destroy', 1), ('SK_SER', 'C16 C24 C25', 'wickr_storage_keys_serialize wickr_storage_keys_to_proto wickr_storage_keys_proto_free', 1),
                   ('SK_RT', 'C16 C24 C25', 'wickr_storage_keys_serialize wickr_storage_keys_create_from_buffer', 1), ('SK_PARSE', 'C24 C25', 'wickr_storage_keys_create_from_buffer wickr_storage_keys_create_from_proto', 1),
                   ('SK_PROTO', 'C16 C24 C25', 'wickr_storage_keys_to_proto wickr_storage_keys_create_from_proto wickr_storage_keys_proto_free', 1),
                   ('DEV', 'C24 C25', 'wickr_dev_info_create_new wickr_dev_info_derive', 1), ('DEV_COPY', 'C16 C21 C24 C25', 'wickr_dev_info_copy wickr_dev_info_create wickr_dev_info_destroy', 1)):
    U('account_' + m.lower(), ps, 'account.c', 'root_keys storage storage_priv devinfo cipher cipher_priv eckey eckey_priv', fns, defines='H_' + m, lib='c_zero.c c_concat.c', weight=w, assumes=[A_ZERO, A_PB, A_ENGINE])

A_TEXT = 'contracts of the text encodings (proved by the coding_* units) are used'
S_FP = 'base32_encode getHexStringFromData'
for m, ps, fns, w in (('GEN', 'C23 C25', 'wickr_fingerprint_gen __wickr_fingerprint_sha512_encode __wickr_fingerprint_sha512_create wickr_ec_key_get_pubdata_fixed_len wickr_identity_get_fingerprint', 1),
                   ('BI_NONE', 'C23 C25', 'wickr_fingerprint_gen_bilateral', 1), ('TEXT', 'C23 C25', 'wickr_fingerprint_get_b32 wickr_fingerprint_get_hex __wickr_fingerprint_encode_for_output_mode', 1),
                   ('COPY', 'C21 C23 C25', 'wickr_fingerprint_copy wickr_fingerprint_create wickr_fingerprint_destroy', 1)):
    U('fingerprint_' + m.lower(), ps, 'fingerprint.c', 'fingerprint eckey identity identity_priv', fns, defines='H_' + m, stubs=S_FP, lib='c_zero.c', weight=w, unwindset={'__wickr_fingerprint_sha512_combine.0': 1} if m == 'BI_NONE' else {}, assumes=[A_ZERO, A_ENGINE, A_TEXT])
U('fingerprint_id_bi', 'C23 C25', 'fingerprint.c', 'identity identity_priv', 'wickr_identity_get_bilateral_fingerprint', defines='H_ID_BI', stubs=S_FP + ' wickr_fingerprint_gen wickr_fingerprint_gen_bilateral wickr_fingerprint_destroy', lib='c_zero.c', assumes=[A_ZERO, A_ENGINE])
U('fingerprint_bi', 'C23 C25', 'fingerprint.c', 'fingerprint', 'wickr_fingerprint_gen_bilateral __wickr_fingerprint_sha512_combine', defines='H_BI V_MEMCMP_EXACT=64 V_CONCAT', stubs=S_FP + ' wickr_buffer_concat', lib='c_zero.c',
  loops=[('fingerprint', '__wickr_fingerprint_sha512_combine', 0, 'v_loop_order(&i, &concat_buffer, f1, f2)')], loop_header='fingerprint_loop.h', unwindset={'__wickr_fingerprint_sha512_combine.0': 2, 'v_memcmp.0': 65}, bounded={'__wickr_fingerprint_sha512_combine.0': 65, 'harness.0': 65, 'v_memcmp.0': 65},
  assumes=[A_ZERO, A_ENGINE, 'wickr_buffer_concat is replaced by its contract, proved by unit buffer_concat'])

S_CTX = ' '.join(['wickr_dev_info_copy', 'wickr_dev_info_destroy', 'wickr_ec_key_copy', 'wickr_ec_key_destroy', 'wickr_identity_create', 'wickr_identity_destroy', 'wickr_node_identity_gen', 'wickr_cipher_key_serialize', 'wickr_cipher_key_from_buffer', 'wickr_cipher_result_serialize', 'wickr_cipher_result_from_buffer',
    'wickr_crypto_engine_kdf_cipher', 'wickr_crypto_engine_kdf_decipher', 'wickr_packet_create_from_components', 'wickr_packet_destroy', 'wickr_packet_create_from_buffer', 'wickr_parse_result_from_packet', 'wickr_parse_result_destroy', 'wickr_decode_result_from_parse_result', 'wickr_ephemeral_keypair_generate_identity']
  + ['wickr_storage_keys_' + x for x in ('copy', 'destroy', 'serialize', 'create_from_buffer', 'to_proto', 'proto_free', 'create_from_proto')] + ['wickr_identity_chain_' + x for x in ('copy', 'destroy', 'create', 'validate', 'to_private_proto', 'proto_free', 'create_from_proto')]
  + ['wickr_root_keys_' + x for x in ('copy', 'destroy', 'localize', 'generate', 'export', 'create_from_buffer')])
A_CTX = 'contracts of identities, root keys, storage keys, device information, sealing under a passphrase, and packets (proved by the identity_*, account_*, kdf_engine_*, protocol_* and node_* units) are used'
for m, ps, fns, w in (('CREATE', 'C10 C16 C24 C25', 'wickr_ctx_create wickr_ctx_destroy __wickr_ctx_gen_header_key', 1), ('COPY', 'C21 C25', 'wickr_ctx_copy', 1), ('GEN_ROOT', 'C07 C24 C25', 'wickr_ctx_gen_with_root_keys __wickr_ctx_gen_result_create', 2),
                   ('GEN_NEW', 'C24 C25', 'wickr_ctx_gen_new wickr_ctx_gen_new_with_sig_key', 1), ('RECOVERY', 'C16 C24 C25', 'wickr_ctx_gen_with_passphrase wickr_ctx_gen_with_recovery wickr_ctx_gen_import_recovery', 2),
                   ('IMPORT', 'C16 C24 C25', 'wickr_ctx_gen_import_recovery_key_passphrase wickr_ctx_gen_import_recovery wickr_ctx_import_storage_keys', 1), ('EXPORT', 'C16 C24 C25', 'wickr_ctx_gen_export_recovery_key_passphrase wickr_ctx_gen_result_make_recovery wickr_ctx_export_storage_keys', 1),
                   ('RESULT', 'C16 C21 C25', 'wickr_ctx_gen_result_copy wickr_ctx_gen_result_destroy', 2), ('SER', 'C16 C24 C25', 'wickr_ctx_serialize wickr_ctx_export __wickr_ctx_to_proto __wickr_ctx_proto_free', 1), ('PARSE', 'C16 C24 C25', 'wickr_ctx_create_from_buffer wickr_ctx_import __wickr_ctx_create_from_proto', 1),
                   ('STORE', 'C08 C24', 'wickr_ctx_cipher_local wickr_ctx_decipher_local wickr_ctx_cipher_remote wickr_ctx_decipher_remote wickr_ctx_ephemeral_keypair_gen', 1), ('ENCODE', 'C09 C10 C25', 'wickr_ctx_encode_packet wickr_encoder_result_create', 1),
                   ('READ', 'C09 C10 C25', 'wickr_ctx_stateless_parse_packet wickr_ctx_parse_packet wickr_ctx_parse_packet_no_decode __wickr_ctx_read_packet wickr_ctx_packet_create wickr_ctx_packet_destroy __wickr_ctx_gen_header_key', 1), ('DECODE', 'C10 C25', 'wickr_ctx_decode_packet', 1)):
    sg = ' wickr_ctx_gen_with_root_keys' if m in ('GEN_NEW', 'RECOVERY') else ''
    U('ctx_' + m.lower(), ps, 'ctx.c', 'wickr_ctx cipher digest encoder_result', fns, defines='H_' + m + (' S_GEN' if sg else ''), stubs=S_CTX + sg, lib='c_zero.c', weight=w, assumes=[A_ZERO, A_PB, A_ENGINE, A_CTX])

S_TC = ' '.join(['wickr_identity_chain_copy', 'wickr_identity_chain_destroy', 'wickr_cipher_result_from_buffer', 'wickr_cipher_result_serialize', 'wickr_stream_key_copy', 'wickr_stream_key_destroy', 'wickr_transport_set_user_data']
  + ['wickr_transport_packet_' + x for x in ('create_from_buffer', 'destroy', 'serialize', 'meta_serialize', 'meta_initialize_data', 'create')] + ['wickr_stream_ctx_' + x for x in ('create', 'destroy', 'copy', 'encode', 'decode')]
  + ['wickr_transport_handshake_' + x for x in ('create', 'destroy', 'copy', 'get_status', 'start', 'process', 'verify_identity', 'finalize', 'res_get_local_key', 'res_get_remote_key', 'res_destroy')])
A_TC = 'contracts of handshakes, packets, streams, stream keys and identity chains (proved by the handshake_*, packet_*, stream_* and identity_* units) are used'
for m, ps, fns, w in (('CREATE', 'C13 C25', 'wickr_transport_ctx_create wickr_transport_ctx_get_local_identity_ptr wickr_transport_ctx_get_remote_identity_ptr wickr_transport_ctx_get_user_ctx wickr_transport_ctx_destroy wickr_transport_ctx_get_status wickr_transport_ctx_get_last_error wickr_transport_ctx_set_user_ctx', 1),
                   ('COPY', 'C21 C25', 'wickr_transport_ctx_copy wickr_transport_ctx_destroy', 1), ('START', 'C13 C25', 'wickr_transport_ctx_start __wickr_transport_ctx_create_handshake __wickr_transport_ctx_update_status __wickr_transport_ctx_set_error', 1),
                   ('TX', 'C13 C25', 'wickr_transport_ctx_process_tx_buffer __wickr_transport_ctx_encode_pkt', 1), ('RX', 'C13 C25', 'wickr_transport_ctx_process_rx_buffer __wickr_transport_ctx_decode_pkt __wickr_transport_ctx_process_handshake_packet __wickr_transport_ctx_finalize_handshake __wickr_transport_ctx_can_process_handshake __wickr_transport_handshake_identity_callback __wickr_transport_validate_identity_complete', 3),
                   ('VALIDATE', 'C13 C25', '__wickr_transport_validate_identity_complete __wickr_transport_ctx_finalize_handshake', 2)):
    U('transport_ctx_' + m.lower(), ps, 'transport_ctx.c', 'transport_ctx', fns, defines='H_' + m, stubs=S_TC, weight=w, assumes=[A_TC])

U('small_eckey', 'C16 C21 C25', 'small.c', 'eckey', 'wickr_ec_key_create wickr_ec_key_copy wickr_ec_key_destroy', defines='H_ECKEY', assumes=[A_ZERO])
U('small_enc', 'C16 C21 C25', 'small.c', 'encoder_result', 'wickr_encoder_result_create wickr_encoder_result_copy wickr_encoder_result_destroy', defines='H_ENC', stubs='wickr_packet_copy wickr_packet_destroy', assumes=[A_ZERO])
for m, src, t, it in (('NARR', 'node', 'wickr_node_array', 'wickr_node'), ('XARR', 'key_exchange', 'wickr_exchange_array', 'wickr_key_exchange')):
    U('small_' + m.lower(), 'C14', 'small.c', src, ' '.join(t + x for x in ('_new', '_set_item', '_fetch_item', '_copy', '_destroy')), defines='H_' + m,
      stubs=it + '_copy ' + it + '_destroy wickr_array_new wickr_array_set_item wickr_array_fetch_item wickr_array_copy wickr_array_destroy', assumes=[A_ARR])
