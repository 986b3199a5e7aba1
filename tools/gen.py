#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = 'libs/egts/'
SUB = [L + f for f in ('egts_sr_abs_an_sensors_data.go', 'egts_sr_abs_cntr_data.go', 'egts_sr_ad_sensors_data.go', 'egts_sr_auth_info.go', 'egts_sr_counters_data.go', 'egts_sr_dispatcher_identity.go',
       'egts_sr_ext_pos_data.go', 'egts_sr_liquid_level_sensor.go', 'egts_sr_module_data.go', 'egts_sr_pos_data.go', 'egts_sr_response.go', 'egts_sr_result_code.go', 'egts_sr_state_data.go', 'egts_sr_term_identity.go')]
PKG = [L + 'egts_pkg.go', L + 'crc.go']
REC = [L + 'service_data_records.go', L + 'record_data.go', L + 'egts_pt_response.go']
SRV = 'cli/receiver/server/server.go'
PROPS = []
def P(id, title, statement, over, text, why, files, mech, note, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, observe=observe))

TRUST = ' Trusts: the SSA translation of golang.org/x/tools, the engine (validated by replaying models of finished paths natively on every run), z3/cvc5.'

P('C01', 'Decoding untrusted bytes never crashes',
  'Decoding any byte string as a packet, a record set, a subrecord set, a response body or any single subrecord either succeeds or returns an error. It never panics, never exits the process and always terminates.',
  ['inputs'], 'every byte string up to the bounds, for every decoder', 'The tests decode a few dozen well-formed samples; a panic needs a particular malformed length, flag or type byte.',
  PKG + REC + SUB, [('length checks of the packet decoder', L + 'egts_pkg.go:Package.Decode'), ('record loop', L + 'service_data_records.go:ServiceDataSet.Decode'), ('subrecord loop', L + 'record_data.go:RecordDataSet.Decode')],
  'All byte strings of up to 20 (packet), 14 (records), 9 (subrecords) and 8..63 bytes (each subrecord type), frames of maximal length. The protobuf payload of subrecord type 15 is not modelled.')
P('C02', 'Corrupted packets are rejected',
  'A packet is accepted only if its header checksum (CRC-8 over the header) and, when it carries data, its data checksum (CRC-16 over the data) are right. In particular changing any single byte of a valid packet makes decoding fail with a non-zero result code, while the unchanged packet is accepted with code 0.',
  ['inputs'], 'every packet, every corrupted position and value', 'Two hand-written bad packets are tested; a checksum that covers too little, or is compared partially, still rejects those.',
  PKG, [('header checksum comparison', L + 'egts_pkg.go:Package.Decode'), ('CRC tables', L + 'crc.go')],
  'Arbitrary frames of up to 14 bytes plus framed ones up to 28 bytes, single-byte corruption of all positions of valid packets, longer bodies at selected sizes; oracle: bitwise CRC-8/CRC-16 written from the standard.')
P('C03', 'Encoded packets follow the standard layout with correct lengths and checksums',
  'Encoding a packet produces the header fields at the positions of the standard in little-endian order, routing fields exactly when the route flag is set, the header length, the data length and the header checksum computed from the actual contents whatever the caller left in those fields, then the data and their checksum. A packet without data carries neither data nor data checksum. A subrecord, a record or data too long for their 16-bit length field are refused.',
  ['inputs'], 'every value of every header field, every data content', 'Tests compare a handful of encoded packets, none with routing fields, stale lengths or long data.',
  PKG, [('header assembly and checksums', L + 'egts_pkg.go:Package.Encode'), ('CRC tables', L + 'crc.go')],
  'All header field values, data of 0..6 arbitrary bytes and selected sizes up to 5000 (thorough 65535), and sizes around the largest of each length field; oracle: layout and bitwise CRCs written from the standard.')
P('C04', 'A packet survives encoding and decoding',
  'Decoding an encoded packet gives back its header fields, records and subrecords or response unchanged, including packets with routing fields and packets without data. Encoding a decoded packet reproduces the bytes that were decoded, apart from position coordinates, which may come out one unit less.',
  ['inputs'], 'every header field value and record content', 'Tests round-trip single samples.', PKG + REC, [('encoder', L + 'egts_pkg.go:Package.Encode'), ('decoder', L + 'egts_pkg.go:Package.Decode')],
  'Unencrypted packets with every header field value carrying nothing, one or two state records, or a response with or without records.')
P('C05', 'Position data survive encoding and decoding',
  'Encoding and then decoding a position subrecord returns the same time, flags, speed, heading, odometer, digital inputs, source and altitude, and latitude and longitude within about one unit of the 32-bit wire resolution. Decoding any 32-bit wire coordinates and encoding them again gives the same value or one unit less.',
  ['inputs'], 'every time, coordinate, speed, heading, odometer and altitude', 'Tests round-trip two positions; rounding and bit-packing errors show only for particular values.',
  [L + 'egts_sr_pos_data.go'], [('coordinate scaling and bit packing', L + 'egts_sr_pos_data.go:SrPosData.Encode/Decode')],
  'Times 2010..2146, latitudes 0..90 and longitudes 0..180 (floating point decided by the solver), speeds 0..1638, headings 0..359, odometer and altitude below 2^24.')
P('C06', 'Sensor and counter subrecords survive encoding and decoding',
  'Encoding and then decoding extended position, sensor, counter, state, liquid level, absolute counter and absolute analog sensor subrecords returns every field that is marked present unchanged. This holds for every combination of present and absent optional fields.',
  ['inputs'], 'every presence combination and field value', 'Tests use one or two combinations per subrecord, so exchanged or lost optional fields go unnoticed.',
  SUB, [('presence flags and field order', L + 'egts_sr_ad_sensors_data.go, egts_sr_counters_data.go, egts_sr_ext_pos_data.go')],
  'All presence combinations of extended position and counters; sensors: all digital combinations with none/all analog and vice versa (thorough: more); every field value.')
P('C07', 'Identity and confirmation subrecords survive encoding and decoding',
  'Encoding and then decoding terminal identity, authentication, module data, dispatcher identity, record confirmation and result code subrecords returns every field unchanged. Texts of any length within the protocol limits without zero bytes, including empty ones, come back byte for byte.',
  ['inputs'], 'every presence combination, text length and content', 'The test files for authentication and dispatcher identity do not even compile; the others use one sample.',
  SUB, [('zero-terminated text handling', L + 'egts_sr_auth_info.go, egts_sr_module_data.go'), ('optional fields', L + 'egts_sr_term_identity.go')],
  'All 256 presence combinations of terminal identity; texts of all short lengths and selected lengths up to 512 bytes.')
P('C08', 'Subrecord bytes follow the standard layout',
  'The bytes of every subrecord other than EGTS+ data are the layout the standard prescribes: fields in order, little-endian, flag bits at their positions, optional fields present exactly when flagged. Decoding such bytes yields the corresponding field values and encoding the field values yields such bytes.',
  ['inputs'], 'every presence combination and field value', 'A symmetric mistake in encoder and decoder passes every round-trip test, and the samples cover few combinations.',
  SUB, [('decoders and encoders', L + 'egts_sr_*.go')],
  'Reference layouts are written independently in the harness (harness/pkgs/libs/egts/gen.go); bounds as C05-C07.')
P('C09', 'Records and subrecords keep their number, order and contents',
  'A record set decodes to exactly the records it was encoded from, in order, each with its number, flags, optional object, event and time fields, service types and subrecords in order; and encodes to the standard layout with record lengths covering all subrecords. Subrecords of unknown type are skipped without affecting their neighbours.',
  ['inputs'], 'every combination of optional fields and subrecord types', 'Tests decode one or two records with one fixed combination of flags.',
  REC, [('record loop', L + 'service_data_records.go'), ('subrecord loop', L + 'record_data.go')],
  'All pairs of 14 subrecord types, all presence combinations of two records in a row, up to 100 subrecords, records longer than 255 bytes.')
P('C10', 'Truncated or overrunning data are rejected',
  'Decoding any proper prefix of a packet, response, record or fixed-layout subrecord, or a record or subrecord whose length field exceeds the data that follow, returns an error, except that a record header with nothing after it is an empty record. Texts that must be zero-terminated and are not are rejected.',
  ['inputs'], 'every cut point and every length value', 'Only complete samples are tested; partial reads silently produced zero-filled values.',
  PKG + REC + SUB, [('full reads of multi-byte fields', L + 'egts_sr_*.go'), ('length checks', L + 'record_data.go, service_data_records.go')],
  'Every proper prefix of subrecords (all types, all presence combinations of most), records, responses and packets; every excessive length. Cuts that leave a complete shorter value (between subrecords or records, right after a record header, whole optional trailing parts) are not claimed.')
P('C11', 'Reported and inferred lengths and types match the encoding',
  'The length reported for a subrecord, a subrecord set, a record set or a response equals the number of bytes its encoding produces. Encoding a record whose subrecord types and lengths are left empty fills in the type and length of each subrecord; a subrecord of a foreign type without a type code is refused.',
  ['inputs'], 'every subrecord content and size', 'Tests always give the lengths; a wrong reported length corrupts the frame only for some contents.',
  REC + SUB, [('Length methods', L + 'egts_sr_*.go, record_data.go, service_data_records.go'), ('type inference', L + 'record_data.go:RecordDataSet.Encode')],
  'All subrecord types, presence combinations, texts of all short and selected long lengths.')
P('C12', 'Encryption is applied to the data exactly when a key is announced',
  'When the encryption algorithm of a packet is not 00, encoding puts the data as encrypted by the supplied key into the frame, with data length and checksum taken over the encrypted bytes, and decoding passes the frame data to the key once and yields the records or response it returns. A missing or failing key makes encoding and decoding fail, decoding with result code 129. With algorithm 00 the key is never used.',
  ['inputs', 'fault_sequences'], 'every algorithm, every data, succeeding and failing keys', 'The one test with a key uses a fixed key and does not look at length and checksum.',
  PKG, [('encryption hooks', L + 'egts_pkg.go:Package.Encode/Decode')],
  'All four algorithm values, keys that are arbitrary functions or fail, plain data of 0..6 bytes, cipher text of 0..7 bytes.')
P('C13', 'Every rejected packet gets the right result code',
  'Decoding returns result code 0 exactly when it returns no error. A packet shorter than its header or whose header length differs from the actual header is answered 131 (incorrect header format), a wrong header checksum 137, an unsupported packet type 133, data shorter than announced 132, a wrong data checksum over otherwise decodable data 138 and undecodable data 129.',
  ['inputs'], 'every malformed packet', 'Tests check one code.', PKG, [('error returns', L + 'egts_pkg.go:Package.Decode'), ('codes', L + 'errors.go')],
  'Arbitrary bytes up to 19, all header truncations and length mismatches, all wrong checksums, all packet types, all cuts inside the data.')
P('C14', 'Malformed flag values are refused on encoding',
  'Encoding a packet, a record or a position, extended position, sensor, counter, state, liquid level or terminal identity subrecord in which any flag field contains a character other than 0 and 1, or more binary digits than the flag byte holds, returns an error; so does encoding the record set or packet around it. It never panics and never silently writes different flags.',
  ['inputs'], 'every malformed flag value', 'Tests only encode well-formed flags.', PKG + REC + SUB, [('strconv parsing of flag strings', L + 'egts_pkg.go, service_data_records.go, egts_sr_*.go')],
  'Each flag field in turn with any non-binary character, or too many digits; empty flag fields throughout.')

exec(open(os.path.join(V, 'tools', 'props2.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'props2.py')) else None
NA = globals().get('NA', [])

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p['observe'] or ['return values of the exported functions'], hook_needed=None))
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
na = {n[0] for n in NA}
checks = [dict(property=p['id'], quick_cmd='bash run.sh %s' % p['id'], thorough_cmd='bash run.sh %s thorough' % p['id'],
               technique='bounded symbolic execution of the Go SSA of /repo, assertions decided by SMT (z3/cvc5), counterexamples replayed natively',
               level='model_checking', level_note='Bounded: ' + p['note'] + TRUST) for p in PROPS if p['id'] not in na]
m = dict(version=1, setup_cmd='bash run.sh setup', checks=checks, not_applicable=[dict(property=a, reason=b) for a, b in NA],
         notes='Harnesses are overlaid onto /repo at run time; nothing is added to /repo. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
