#!/usr/bin/env python3
# Writes properties.jsonl (one place to edit the wording). Run from /verif.
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
S='src/'
NOEX='The 142 unit tests cover only the pure serialisation/helper modules with one fixed input each; no command handler, prompt, session or signing code is compiled by them.'
p('C01','A released signature is valid and commits to exactly the uploaded transaction',
 'Whenever the device releases a signature, it verifies under the public key of the derivation path shown for that session, for the byte serialization of exactly the transaction that was uploaded in that session (inputs, context extensions, data inputs, token ids, outputs, in upload order). No upload pattern, chunking, retry, reset or interleaved traffic can make the signed bytes differ from the uploaded ones.',
 ['inputs','histories','schedules','fault_sequences'],
 'Every transaction shape (counts, sizes, VLQ boundaries, chunk splits), every key path, every history of earlier/interrupted sessions and device crypto/RNG faults.',
 NOEX+' The full-transaction unit test serialises one transaction and never signs.',
 [S+'ergo/schnorr.c',S+'ergo/tx_ser_full.c',S+'ergo/tx_ser_box.c',S+'ergo/tx_ser_input.c',S+'ergo/tx_ser_table.c',S+'common/gve.c',S+'commands/signtx/operations/stx_op_p2pk.c',S+'helpers/crypto.c'],
 [('streaming hash of prefix, key, commitment and serialized transaction',S+'ergo/tx_ser_full.c'),('z = y + c*x',S+'ergo/schnorr.c')],
 [('tx hash','running commitment over the transaction bytes',S+'commands/signtx/operations/stx_op_p2pk.h')],
 ['response data of the sign confirm command (56 bytes)','screens of the session'])
p('C02','No signature without every approval of this session; a rejection ends it',
 'A signature is released only after the user approved, on the device and in this same session since the last power-on, the signing request, every output that must be reviewed, and the final summary, with all declared parts uploaded. A rejection or abort at any of these points ends the session, and one final approval yields at most one signature.',
 ['schedules','histories','crash_points','fault_sequences'],
 'Every interleaving of commands from any number of hosts with button presses, rejections, idle prompts, retries, and power cycles.',
 NOEX+' The device-emulator tests follow scripted happy paths with cooperative button presses.',
 [S+'commands/signtx/stx_handler.c',S+'commands/signtx/stx_ui.c',S+'commands/signtx/operations/stx_op_p2pk.c',S+'ui/ui_approve_reject.c',S+'context.c'],
 [('approval state per session',S+'commands/signtx/stx_handler.c'),('context wipe on any error or rejection',S+'context.c')],
 [('operation state','phase of the signing session',S+'commands/signtx/operations/stx_op_p2pk.h')],
 ['button presses and screens','every command response'])
p('C03','Every output is shown truthfully, except own fee/change under the stated rules',
 'Each completed output is put before the user with its true destination (address, script hash, change path or miner fee), amount and every token id and amount (a change prompt shows the path only) before anything further is accepted, and stays readable correctly in any navigation order. The only outputs accepted silently are a miner-fee output without tokens and a standard 5-component change path that either equals the change path most recently approved, or has the same account and chain as the signing key with index below the signing index plus 20.',
 ['inputs','histories','schedules'],
 'Every output (tree kinds, sizes, chunkings, tokens, change paths, network) in every position of every transaction, under arbitrary left/right/both button sequences.',
 NOEX+' Output classification and review rules are only syntax-checked by the build.',
 [S+'commands/signtx/stx_output.c',S+'commands/signtx/stx_ui.c',S+'commands/signtx/operations/stx_op_p2pk.c',S+'common/bip32_ext.h',S+'ui/ui_dynamic_flow.c',S+'ergo/ergo_tree.c',S+'ergo/address.c'],
 [('output classification',S+'commands/signtx/stx_output.c'),('review exemption decision',S+'commands/signtx/operations/stx_op_p2pk.c'),('dynamic screen navigation',S+'ui/ui_dynamic_flow.c')],
 [('last approved change path','exempts an identical change path',S+'commands/signtx/operations/stx_op_p2pk.h')],
 ['screen text while a prompt is pending'])
p('C04','The final summary shows the exact totals, and sums that overflow are refused',
 'The final approval shows the signing path, the amount leaving the wallet (all inputs minus change minus fee), the total miner fee, and for every token whose input and output sums differ the exact minted or burned quantity. A transaction whose sums cannot be represented is refused, never shown wrapped or truncated.',
 ['inputs','histories'],
 'Every combination of attested input values, outputs, fee and change outputs and token amounts up to the 64-bit limits, over any number of inputs, frames and outputs.',
 NOEX+' Safe-integer helpers are tested on a few constants; the accumulators and the summary screens are not run.',
 [S+'commands/signtx/stx_amounts.c',S+'commands/signtx/stx_amounts.h',S+'common/safeint.h',S+'commands/signtx/stx_ui.c'],
 [('checked accumulation',S+'common/safeint.h'),('summary screens',S+'commands/signtx/stx_ui.c')],
 [('amounts','running erg/token totals',S+'commands/signtx/stx_amounts.h')],
 ['screens of the final approval','response code of the command that overflows'])
p('C05','Attestation reports the true identity and contents of the uploaded box',
 'For every box uploaded for attestation, however it is split into chunks, the frames returned carry the id of exactly that box, its exact value, the right frame count and every token id and amount exactly once and in order. Frames can be fetched repeatedly and in any order and always agree.',
 ['inputs','histories','fault_sequences'],
 'Every box (value, script size, height, 0-20 tokens, registers, index) and chunking, with retries, duplicates, interleaved traffic and injected failures.',
 NOEX+' The box serializer is tested on a handful of boxes; the attestation command and frames never run.',
 [S+'commands/attestinput/ainpt_handler.c',S+'commands/attestinput/ainpt_response.c',S+'ergo/tx_ser_box.c',S+'common/gve.c'],
 [('streaming box id hash',S+'ergo/tx_ser_box.c'),('frame construction',S+'commands/attestinput/ainpt_response.c')],
 [('token table and amounts','tokens of the box being attested',S+'commands/attestinput/ainpt_context.h')],
 ['response data of the get-frame command'])
p('C06','Only frames this device attested since power-on are accepted as inputs',
 'An input frame is accepted for signing only if the device itself produced it since its last power-on and it arrives unmodified; forged, corrupted, truncated, recombined or pre-restart frames are refused and end the session. Every genuine frame is accepted when presented in order, whichever host or session attested it.',
 ['histories','crash_points','fault_sequences','inputs'],
 'Every history of attestations, restarts, replays of old frames, bit flips, truncations and reorderings.',
 NOEX+' No test replays a frame across a restart or corrupts one.',
 [S+'helpers/input_frame.c',S+'commands/signtx/stx_handler.c',S+'commands/attestinput/ainpt_response.c',S+'context.c'],
 [('HMAC with a per-boot key',S+'commands/attestinput/ainpt_response.c'),('frame verification',S+'commands/signtx/stx_handler.c')],
 [('session key','fresh random key per power-on',S+'context.h')],
 ['response of the input-frame command'])
p('C07','Sessions are isolated: stale, foreign or aborted sessions never take effect',
 'A session command is honoured only for the current session of its own kind; any wrong session number, command of another kind, failed step or newly started request ends the current session, after which none of its earlier steps has any effect. Within one power cycle a newly granted session never carries the number of the previously granted one.',
 ['schedules','histories','fault_sequences'],
 'Every interleaving of several hosts attesting and signing with delayed, duplicated, reordered and stale commands.',
 NOEX+' Tests drive one client with one session at a time.',
 [S+'helpers/cmd_macros.h',S+'helpers/session_id.h',S+'context.c',S+'commands/signtx/stx_handler.c',S+'commands/attestinput/ainpt_handler.c'],
 [('session and command-kind checks',S+'helpers/cmd_macros.h'),('context wipe',S+'context.c')],
 [('session number','identifies the current upload',S+'commands/signtx/stx_context.h')],
 ['response codes','session number responses'])
p('C08','A pending prompt is exclusive: other commands are refused without effect',
 'While a confirmation is on the display every state-changing command is refused as busy and changes nothing: the prompt, its displayed text, and its eventual outcome are the same as if the command had never arrived. Version and name queries keep being answered correctly and have no effect.',
 ['schedules','histories'],
 'Every point of every prompt at which commands from any host may arrive.',
 NOEX+' Nothing sends a command while a prompt is open.',
 [S+'context.h',S+'ui/ui_main.h',S+'ui/ui_menu.c',S+'commands/signtx/stx_handler.c',S+'commands/attestinput/ainpt_handler.c',S+'commands/deriveaddress/da_handler.c',S+'commands/extpubkey/epk_handler.c'],
 [('busy flag',S+'ui/ui_main.h')],
 [('ui busy','a confirmation is pending',S+'context.h')],
 ['responses and screens while a prompt is pending'])
p('C09','Every command gets exactly one answer and the device always stays usable',
 'Every complete command is answered exactly once (immediately, or when the user decides the prompt it opened), a decided prompt returns to the main menu, and no history of faults, aborts or restarts leaves the device unusable: once faults stop, a correct attest-and-sign run by an approving user completes within a bounded number of steps.',
 ['schedules','histories','fault_sequences','crash_points'],
 'Every history of commands, buttons, faults and restarts, followed by a fault-free phase.',
 NOEX+' No test continues after a failure.',
 [S+'app_main.c',S+'apdu_dispatcher.c',S+'ui/ui_menu.c',S+'ui/ui_dynamic_flow.c',S+'context.c'],
 [('dispatch loop',S+'app_main.c'),('reset to idle on error',S+'context.c')],
 [],['count and order of responses','menu screen after each decision'])
p('C10','An application is trusted only after the user approved it, until power-off',
 'A request skips its confirmation only when it presents the nonzero application token that the user most recently approved since power-on; a zero, absent, different, rejected or pre-restart token always prompts. A prompt for an unknown application always shows its token.',
 ['histories','crash_points','inputs'],
 'Every sequence of requests with any tokens, approvals, rejections and restarts from several applications.',
 NOEX+' Tokens are never exercised by the unit tests.',
 [S+'helpers/session_id.h',S+'context.h',S+'commands/extpubkey/epk_handler.c',S+'commands/deriveaddress/da_handler.c',S+'commands/attestinput/ainpt_handler.c',S+'commands/signtx/stx_handler.c',S+'ui/ui_application_id.c'],
 [('known application test',S+'helpers/session_id.h')],
 [('connected application','token approved last',S+'context.h')],
 ['whether a request prompts','Application screen'])
p('C11','Crypto and randomness failures never yield wrong output',
 'If any operating-system crypto call fails or the random source misbehaves at any point, the affected command either ends with an error and the session is closed, or completes with exactly the result a fault-free device would give. It never releases a wrong key, address, frame or signature, and the next request is unaffected.',
 ['fault_sequences','histories'],
 'A failure of every fallible system call at every point of every flow, alone or in bursts, and degenerate random values.',
 'No test injects a failing system call; the unit-test stubs of the crypto calls always succeed.',
 [S+'helpers/crypto.c',S+'ergo/schnorr.c',S+'helpers/blake2b.c',S+'ergo/tx_ser_box.c',S+'ergo/tx_ser_full.c',S+'commands/signtx/operations/stx_op_p2pk.c',S+'commands/signtx/stx_output.c'],
 [('result code checks on each system call',S+'helpers/crypto.c'),('bounded nonce retry',S+'ergo/schnorr.c')],
 [],['responses after an injected failure'])
p('C12','Signing nonces are always fresh',
 'Every signing session draws a new random nonce in the valid range and no nonce is used in two released signatures, across retries, aborted sessions, failures and restarts. Two released signatures never share the commitment of their nonce.',
 ['histories','fault_sequences','crash_points'],
 'Every sequence of sessions, aborts, crypto failures, degenerate random draws and restarts.',
 'Signing code is not compiled by the tests; nonce reuse only shows across sessions.',
 [S+'ergo/schnorr.c',S+'commands/signtx/operations/stx_op_p2pk.c'],
 [('nonce drawn at session start, erased at its end',S+'commands/signtx/operations/stx_op_p2pk.c')],
 [('nonce','ephemeral signing key of the session',S+'commands/signtx/operations/stx_op_p2pk.h')],
 ['released signatures, with the known simulated key','random source calls'])
p('C13','Private key material is erased as soon as it is not needed',
 'When the device is waiting for the next command or button, no derived private key remains anywhere in its memory, and a signing nonce remains only while the session it belongs to is live. After completion, rejection, failure or abort of a session neither is recoverable.',
 ['histories','fault_sequences','schedules'],
 'Every history, including system-call failures at every point between deriving a key and erasing it.',
 'Memory residue is invisible to functional tests, and error paths are never executed by them.',
 [S+'helpers/crypto.c',S+'ergo/schnorr.c',S+'commands/signtx/operations/stx_op_p2pk.c',S+'context.c'],
 [('explicit erasure after use',S+'helpers/crypto.c'),('context wipe',S+'context.c')],
 [('nonce','ephemeral signing key of the session',S+'commands/signtx/operations/stx_op_p2pk.h')],
 ['full application memory and stack at every wait point'])
p('C14','No sequence of inputs corrupts memory or hangs the device',
 'Whatever bytes, commands, lengths and button presses arrive, in whatever order and with whatever failures, the application never accesses memory out of bounds, never executes undefined behaviour, never trips an internal assertion and never stops responding.',
 ['inputs','histories','fault_sequences'],
 'Every byte stream and history, including malformed, truncated, oversized and out-of-order commands.',
 'Unit tests use well-formed data on host-side modules only and run without memory checking of the handlers.',
 [S+'apdu_dispatcher.c',S+'common/rwbuffer.c',S+'common/rwbuffer.h',S+'common/buffer_ext.c',S+'helpers/input_frame.c',S+'commands/signtx/stx_handler.c',S+'commands/attestinput/ainpt_handler.c',S+'ui/ui_main.h',S+'ui/ui_dynamic_flow.c',S+'commands/signtx/stx_ui.c'],
 [('bounded buffer primitives',S+'common/rwbuffer.h'),('screen array bound',S+'ui/ui_main.h')],
 [],['sanitizer reports, step budget'])
p('C15','Exported keys and addresses are those of the requested path, under path policy',
 'A key or address is returned or displayed only for a path of the permitted form, is exactly the one derived from that path (with the requested network), and is released only after the user approved the prompt showing that path and address, or to the application already trusted. Paths outside the policy never reach key derivation.',
 ['inputs','histories','schedules'],
 'Every path, network, mode and token, interleaved with other requests and prompts.',
 NOEX+' Address encoding is tested on a few keys; the commands are not run.',
 [S+'commands/extpubkey/epk_handler.c',S+'commands/extpubkey/epk_ui.c',S+'commands/extpubkey/epk_response.c',S+'commands/deriveaddress/da_handler.c',S+'commands/deriveaddress/da_ui.c',S+'commands/deriveaddress/da_response.c',S+'common/bip32_ext.c',S+'ergo/address.c'],
 [('path validation',S+'common/bip32_ext.c'),('address encoding',S+'ergo/address.c')],
 [],['responses, screens, and paths passed to key derivation'])
p('C16','Uploads are enforced complete, in order and within limits',
 'A transaction or box upload advances only in the documented order with exactly the declared number of inputs, frames, tokens, data inputs, outputs and bytes; anything missing, extra, repeated, out of order or beyond the limits is refused and ends the session. No part can be skipped or begun before the previous one is complete.',
 ['inputs','histories','fault_sequences'],
 'Every sequence of upload commands with any declared and actual sizes, including lost, duplicated and reordered steps.',
 NOEX+' Serializer tests check single steps in isolation, not whole-session orders.',
 [S+'ergo/tx_ser_full.c',S+'ergo/tx_ser_box.c',S+'ergo/tx_ser_input.c',S+'ergo/tx_ser_table.c',S+'commands/signtx/stx_handler.c',S+'commands/signtx/operations/stx_op_p2pk.c',S+'commands/attestinput/ainpt_handler.c'],
 [('serializer state machines',S+'ergo/tx_ser_full.c')],
 [('remaining counters','parts still expected',S+'ergo/tx_ser_full.h')],
 ['response codes of upload commands'])
p('C17','Malformed commands are refused without any effect',
 'A command with a bad length, unknown class, unknown instruction, zero or out-of-range dispatch parameters or, for the version and name queries, unexpected data or parameters is refused with an error and changes nothing: a session in progress continues exactly as if the command had never arrived. A request that is refused only by its handler (unknown step, wrong size or content of its data) gets an error too, and at most ends the open session.',
 ['inputs','histories','fault_sequences'],
 'Every malformed or corrupted command at every point of every session.',
 NOEX+' The dispatcher is not compiled by the tests.',
 [S+'apdu_dispatcher.c',S+'app_main.c'],
 [('dispatch checks before any handler',S+'apdu_dispatcher.c')],
 [],['response codes; subsequent behaviour of the session'])
p('C20','Answers and screens disclose nothing but what they promise',
 'Every answer carries exactly the fields promised for the command and nothing else: an answer with an error status carries no data, and no answer or screen contains bytes left over from other commands, sessions or unused memory. Neither an answer nor a screen ever contains a private key, a signing nonce, an intermediate secret of a signature or the key that authenticates frames, whatever fails or is interrupted.',
 ['inputs','histories','fault_sequences'],
 'Every command in every state, with any failure of the system calls it makes, after any history.',
 NOEX+' The handlers that answer are not compiled by the tests.',
 [S+'helpers/response.h',S+'commands/attestinput/ainpt_response.c',S+'commands/extpubkey/epk_response.c',S+'commands/deriveaddress/da_response.c',S+'commands/signtx/stx_response.c',S+'commands/signtx/operations/stx_op_p2pk.c',S+'ergo/schnorr.c',S+'helpers/crypto.c'],
 [('answers are built in buffers of exact length',S+'helpers/response.h')],
 [('secret material','private keys, nonces and the frame key handed to the application',S+'context.h')],
 ['every answer and every screen'])
p('C18','Variable-length integer encoding round-trips for every value',
 'For every integer of each supported width, decoding its encoding yields the same value and consumes exactly the bytes written, and malformed or too-long encodings are rejected.',
 ['inputs'],
 'All values of each width.',
 'Tests try a few constants per width.',
 [S+'common/gve.c',S+'common/gve.h',S+'common/zigzag.h'],
 [('encoder/decoder',S+'common/gve.c')],[],['return value and bytes'])
p('C19','Buffer primitives never read or write outside their bounds',
 'Every read, write, seek or shift on a byte buffer either succeeds entirely within the buffer or fails leaving its contents and position unchanged.',
 ['inputs'],
 'All buffer sizes, offsets and operation arguments.',
 'Tests try a few offsets.',
 [S+'common/rwbuffer.c',S+'common/rwbuffer.h',S+'common/buffer_ext.c'],
 [('bounds checks',S+'common/rwbuffer.h')],[],['return value and buffer state'])
with open('properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
