#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and the unit registry (units.py)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import units as UN
S = 'src/wickrcrypto/src/'
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over.split(), 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': [f if '/' in f else S + f for f in files.split()], 'mechanism': [{'name': m, 'where': S + w} for m, w in mech],
                          'observe_at': list(observe), 'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state], 'hook_needed': None}})

prop('C01', 'Buffer operations are exact and stay in bounds',
     'Creating, copying, slicing, overwriting, joining and comparing byte buffers yields exactly the bytes the operation names, for every length up to the documented maximum. A request outside the source range, beyond the maximum size or of length zero is refused, and inputs are never modified or read outside their bounds.',
     'inputs', 'all buffers of any length and content, all offsets and lengths, including ones whose sum overflows',
     'Tests use a few short literal buffers; the overflow, boundary and aliasing cases are in the 64-bit range of offsets and lengths.',
     'buffer.c buffer_priv.c memory.c', [('range validation', 'buffer.c'), ('size limit on creation and concatenation', 'buffer.c')], ['wickr_buffer_* results'])
prop('C02', 'Cipher result, cipher key and signature encodings round-trip',
     'Serializing a cipher result, a cipher key or an ECDSA signature and parsing the bytes gives the same value back; the encoded layout is the documented one and a signature always has the fixed size of its curve. Truncated input and unknown cipher, curve or digest identifiers are rejected without reading past the input.',
     'inputs', 'all values and all byte strings given to the parsers',
     'Tests round-trip one value per cipher and try a couple of bad inputs; the parsers must hold for every byte string an attacker sends.',
     'cipher.c cipher_priv.c ecdsa.c ecdsa_priv.c digest.c eckey.c', [('length and identifier checks', 'cipher.c'), ('padding header', 'ecdsa.c')], ['serialize / from_buffer functions'])
prop('C03', 'Transport packets are parsed, signed and verified exactly as sent',
     'A transport packet that is serialized and parsed again has the same type, flags, sequence number, body and authenticator. A signed packet verifies only if the signature verifies over exactly the received packet bytes under the identity chain of the sender, and malformed packets and unknown payload types are rejected.',
     'inputs', 'all packets, all byte strings, all signature outcomes',
     'Tests build a few packets and one tampered one.', 'transport_packet.c', [('packet meta codec', 'transport_packet.c'), ('signature check over the network buffer', 'transport_packet.c')])
prop('C04', 'Streams accept every packet at most once, in order, and authenticated',
     'A stream context encodes or decodes only in its own direction and only for a sequence number strictly greater than the last one processed. What decode returns is exactly the output of one authenticated decryption of the given packet with the given associated data under the current key, with no output otherwise.',
     'inputs histories', 'all contexts, packets, associated data and sequence numbers, hence all histories of calls by induction over the context state',
     'Tests push a short ascending series of packets through one stream; replay and reordering protection is a statement about every pair of numbers.',
     'stream_ctx.c', [('sequence and direction check', 'stream_ctx.c'), ('authenticated decryption only', 'stream_ctx.c')], ['wickr_stream_ctx_encode/decode results'],
     [('last_seq', 'last sequence number processed', 'stream_ctx.h')])
prop('C05', 'The stream key ratchet derives the key of each packet deterministically',
     'A packet with sequence number n is processed under the key reached by exactly n / packets-per-evolution ratchet steps from the initial key, each step deriving the next cipher key and evolution key as the two halves of HMAC-SHA512 of the cipher key keyed with the evolution key. A refused packet leaves the key unchanged, so both ends stay in step for any gaps in the numbering.',
     'inputs histories', 'all sequence gaps (any number of ratchet steps), all evolution rates and keys',
     'Tests cross one or two evolution boundaries; the number of steps is unbounded and depends on every earlier packet.',
     'stream_ctx.c stream_key.c', [('evolution loop', 'stream_ctx.c'), ('halving of the HMAC output', 'stream_ctx.c')], ['key handed to the cipher engine'])
prop('C06', 'No stream encryption reuses an IV',
     'Every encryption of a stream takes a fresh IV: the keyed hash of a counter that never takes the same value twice under one random seed, truncated to the IV length of the cipher. A copied or failed operation never leads to an IV being used for two encryptions of one context.',
     'histories inputs', 'all histories of encode calls, including failing ones, by induction over the counter',
     'A repeated IV shows no functional error; tests never look at IVs over a history.',
     'stream_iv.c stream_ctx.c', [('gen_count counter', 'stream_iv.c')], ['IV handed to the cipher engine'], [('gen_count', 'number of IVs generated', 'stream_iv.h')])
prop('C07', 'An identity chain is valid only if its root signed its node',
     'Validation of an identity chain succeeds only if the signature of its node verifies over the node public key under the root key; the outcome is remembered and a remembered failure or unknown state is never reported as valid. Parsing and serializing identities and chains preserves all of their fields.',
     'inputs histories', 'all chains, including mixed types, missing signatures and cached states',
     'Tests check one good and one or two bad chains.', 'identity.c identity_priv.c', [('signature check', 'identity.c'), ('status cache', 'identity.c')], state=[('_status', 'cached outcome', 'identity.h')])
prop('C08', 'A node key is trusted only if its whole signature chain verifies',
     'A node verifies only if its identity chain validates and the ephemeral key carries a signature over its public key by the node identity of that chain. A cached outcome is used only for the very chain and ephemeral key it was computed for.',
     'inputs histories', 'all nodes, caches and orders of validation',
     'Tests validate freshly generated nodes; the cached path after any part was exchanged is never exercised.', 'node.c node_priv.c ephemeral_keypair.c ephemeral_keypair_priv.c', [('chain verification', 'node.c'), ('status cache', 'node_priv.c')])
prop('C09', 'Message packets are signed whole and parsed back exactly',
     'A created message packet consists of its version, the signature curve, the encrypted key exchange header, the encrypted payload and the sender signature over the header and payload content; parsing accepts only supported versions and curves, and verifies the signature of the sender over exactly the received content. Parsing a created packet gives back its content, and payloads keep their metadata and body through encoding and encryption.',
     'inputs', 'all packets and all byte strings',
     'Tests parse packets made by the library and flip a few bytes.', 'protocol.c', [('signature over content', 'protocol.c'), ('version check', 'protocol.c')])
prop('C10', 'Key exchanges are bound to their parties by the version of the protocol',
     'The symmetric key protecting a packet key is derived from the shared secret with exactly the salt, context information and hash the protocol version prescribes, binding device id and, from version 3, both root identities; sender and receiver derive the same parameters. Only the exchange meant for a node is used to recover a packet key.',
     'inputs configurations', 'all supported versions, nodes, identities and device ids',
     'Tests only see that a decode by the right party works, which also holds with weaker bindings on both sides.', 'protocol.c key_exchange.c ecdh_cipher_ctx.c', [('kdf info', 'protocol.c'), ('exchange lookup', 'key_exchange.c')])
prop('C11', 'Decoding releases a payload only after full authentication',
     'Decoding a packet returns a payload key and payload only if the packet signature verifies under the given sender identity, the receiver has its own key exchange in the packet, and the header, the recovered key and the payload ciphertext authenticate. A packet is created only for recipients whose whole signature chain verifies. Every failure is reported as its distinct error with no plaintext attached.',
     'inputs', 'all packets, senders and receivers',
     'Tests tamper with a handful of fields.', 'protocol.c wickr_ctx.c', [('ordered checks in parse and decode', 'protocol.c')])
prop('C12', 'The transport handshake follows its message order and binds both identities',
     'Each side of the transport handshake advances only on the expected message in the expected state; a finalized handshake yields stream keys derived from the key agreement between exactly the two verified identities, with the sender key of one side being the receiver key of the other. Unexpected, unauthentic or malformed messages fail the handshake and yield no keys.',
     'inputs histories', 'all message orders and contents in every handshake state',
     'Tests run the good handshake and few bad orders.', 'transport_handshake.c transport_handshake_priv.c transport_root_key.c transport_root_key_priv.c', [('state machine', 'transport_handshake.c')])
prop('C13', 'A transport passes data only after the handshake, in order, both ways',
     'A transport context sends and accepts application data only once the handshake has succeeded and its status is active; received data is delivered only if it decodes under the receive stream with the received sequence number and packet header authenticated. Any handshake or data failure moves it to an error state in which nothing is delivered.',
     'inputs histories', 'all event sequences and packet contents',
     'Tests drive one good exchange and few failures.', 'transport_ctx.c', [('status machine', 'transport_ctx.c')])
prop('C14', 'Arrays keep each item in its slot and own their copies',
     'An array returns for each index exactly the item last stored there, refuses indexes beyond its size, and copies or releases each item exactly once as requested. A deep copy shares no item with the original.',
     'inputs histories', 'all sizes, indexes and item contents',
     'Tests use arrays of a few items.', 'array.c', [('index check', 'array.c')])
prop('C15', 'Base32, base64 and hex coding are inverse and memory safe',
     'Encoding any byte string to base32, base64 or hex and decoding the text gives the bytes back. Decoding any text, including malformed or unterminated input, never reads or writes outside its buffers.',
     'inputs', 'all byte strings and all texts',
     'Tests use a few literal strings.', 'b32.c util.c', [('decode tables', 'util.c')])
prop('C16', 'Secret key material is wiped before its memory is released',
     'When a key object (cipher key, private EC key, stream key, root key, payload buffer released through the wiping destructor) is destroyed, every byte of its secret material is zero before the memory is returned to the allocator.',
     'inputs', 'all key objects of any content and length',
     'Freed memory is invisible to tests.', 'memory.c buffer.c cipher.c eckey.c stream_key.c root_keys.c', [('wickr_zero and destroy_zero', 'memory.c')])
prop('C17', 'Passphrase-protected exports open only with their passphrase',
     'Data sealed under a passphrase is encrypted with an authenticated cipher under a key derived from the passphrase with the recorded derivation parameters, and opening it with the same passphrase gives the data back. Malformed input or a failed authentication yields nothing.',
     'inputs', 'all passphrases, contents and byte strings',
     'Tests use one passphrase and one wrong one.', 'crypto_engine.c kdf.c', [('kdf cipher / decipher', 'crypto_engine.c')])
prop('C18', 'Symmetric encryption binds key, IV, data and tag exactly',
     'The default engine encrypts exactly the given plaintext and associated data under the given key with a fresh or given IV of the right length, and returns plaintext only when the authentication tag verified, never for an unauthenticated cipher when authentication is required. Keys and IVs of the wrong length are refused.',
     'inputs fault_sequences', 'all inputs and all outcomes of the crypto library calls',
     'Tests cannot make the crypto library fail at each call, nor cover all lengths.', 'openssl_suite.c', [('EVP call sequence', 'openssl_suite.c')])
prop('C19', 'Signatures, MACs, key agreement and hashing report success truthfully',
     'The default engine accepts a signature or MAC only if the crypto library verified exactly the given data under the given key, and returns hashes, MACs, derived and agreed keys only if every library call succeeded, in full length. A failure of any step yields no result.',
     'inputs fault_sequences', 'all inputs and all outcomes of the crypto library calls',
     'Tests cannot make the crypto library fail at each call.', 'openssl_suite.c', [('EVP call sequences', 'openssl_suite.c')])
prop('C20', 'File encryption reports success only for complete, authentic files',
     'Encrypting a file reports success only if all of its bytes were read, encrypted and written; decrypting reports success only if the whole file was read, its cipher matches the key and its authentication tag verified. Files of any size are processed without memory errors.',
     'inputs fault_sequences', 'all files and all short reads, write errors and library failures',
     'Tests encrypt one small file with no faults.', 'openssl_file_suite.c openssl_suite.c', [('chunk loop', 'openssl_file_suite.c')])
prop('C21', 'Copies are deep and complete',
     'Copying any object yields an object with equal content that shares no mutable memory with the original, or no object at all if the copy cannot be completed. The original is unchanged.',
     'inputs fault_sequences', 'all objects, with allocation failing at any point',
     'Tests compare copies of a few objects and never check for sharing or partial copies.', 'cipher.c ecdsa.c eckey.c identity.c node.c key_exchange.c stream_ctx.c stream_key.c payload.c root_keys.c storage.c', [('*_copy functions', 'identity.c')])
prop('C22', 'Serialization for others never contains private keys',
     'The serialized form of identities, identity chains, nodes, ephemeral keys and transport messages meant for other parties contains public keys only, whether or not the object holds the private ones.',
     'inputs', 'all identities and nodes, with and without private keys',
     'Tests do not look for private bytes in the output.', 'identity_priv.c ephemeral_keypair_priv.c node_priv.c', [('public data only', 'identity_priv.c')])
prop('C23', 'Fingerprints identify exactly their identities',
     'The fingerprint of an identity is the hash of its user identifier followed by its public signing key, padded to a fixed length, and the fingerprint of two different parties is the same whichever of them computes it. Short and encoded forms are exact prefixes and encodings of the hash.',
     'inputs', 'all identities and pairs of fingerprints',
     'Tests compare a few fixed fingerprints.', 'fingerprint.c identity_priv.c', [('ordering of the two halves', 'fingerprint.c')])
prop('C24', 'Account keys survive export and import unchanged',
     'Root keys, storage keys and device contexts give back exactly the same keys after being serialized and parsed, exported and imported; missing or malformed parts are rejected. Storage keys are used for local and remote data respectively, never swapped, and are derived from the root keys and the device as specified.',
     'inputs', 'all key sets and all byte strings',
     'Tests round-trip one randomly generated set.', 'root_keys.c storage.c storage_priv.c wickr_ctx.c devinfo.c', [('field mapping', 'storage_priv.c')])
prop('C25', 'Memory exhaustion never crashes, leaks or truncates',
     'Whatever allocation fails during an operation, the operation reports failure or succeeds completely: it does not crash, touch released memory, release anything twice, return a partial object or lose memory. Successful operations leave exactly the memory of their results allocated.',
     'fault_sequences inputs', 'every subset of allocations failing, at every point of each operation',
     'Tests never make an allocation fail.', 'cipher.c ecdsa.c eckey.c stream_key.c stream_ctx.c identity.c node.c key_exchange.c protocol.c payload.c', [('NULL checks and cleanup on every path', 'cipher.c')])

NOT = {}
def main():
    claimed = [p for p in P if any(p['id'] in u.props for u in UN.UNITS)]
    here = os.path.dirname(os.path.abspath(__file__))
    with open(here + '/properties.jsonl', 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
    checks = []
    for p in claimed:
        us = [u for u in UN.UNITS if p['id'] in u.props]
        b = [u.name for u in us if u.bounded and not u.loops]
        note = ('CBMC discharges every obligation of the contracts of %d units (%d functions) generated from the current source, for all inputs and iterations (loop contracts or complete unwinding); callees outside a unit are assumed by contract, see DESIGN.md. ' % (len(us), len({f for u in us for f in u.functions}))
                + ('Bounded stand-ins, not counted as proved: %s. ' % ', '.join(b) if b else '')
                + 'Trusted: CBMC/MiniSat, its memory model, the callee contracts on OpenSSL, protobuf-c and libc listed in the evidence.')
        checks.append({'property': p['id'], 'quick_cmd': 'python3 run.py ' + p['id'], 'thorough_cmd': 'python3 run.py ' + p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': 'deductive contract verification of the C source (CBMC, loop contracts, callee contracts)', 'level': 'proof', 'level_note': note})
    na = [{'property': p['id'], 'reason': NOT.get(p['id'], 'no contracts for the functions behind this property have been written yet')} for p in P if p not in claimed]
    json.dump({'version': 1, 'setup_cmd': 'python3 setup_check.py', 'checks': checks, 'not_applicable': na,
               'notes': 'run.py <property> [--unit name]; units.py lists the units; no hooks in /repo'}, open(here + '/MANIFEST.json', 'w'), indent=1)
if __name__ == '__main__': main()
