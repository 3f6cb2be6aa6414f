"""Single source of properties.jsonl and MANIFEST.json. Run: python3 tools/spec.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the real Python functions, obligations decided by Z3 over all inputs within bounds"
P = []


def prop(i, title, statement, over, text, why, files, mech, observe=None, note=""):
    assert len(title) <= 80, (i, len(title))
    P.append((i, title, statement, over, text, why, files, mech, observe or [], note))


prop("C01", "Exactly the valid frames of the byte stream are extracted",
     "Offered any byte stream, the decoder's message extraction returns exactly the RTCM 3 frames of the stream (0xD3, six zero bits, a ten-bit "
     "payload length of 0 to 1023, payload, matching CRC-24Q) in stream order and byte for byte, dropping single bytes that cannot start a frame "
     "that checks, and never reporting a frame whose checksum does not match. A candidate that is not complete yet is kept waiting for more "
     "bytes. The parse-error counter grows by one for each valid frame that is preceded by dropped bytes since the previous valid frame; bytes "
     "dropped before the first valid frame are not counted.",
     ["inputs"], "every byte string within the length bounds, and every content of structured streams up to about 4 kB",
     "The tests read a few recorded clean files; a wrong resynchronisation step shows only for particular junk, corrupted or nested frames.",
     ["decoder_top.py", "utilities/CRC24Q.py"],
     [("frame search and resynchronisation", "decoder_top.py DecoderTop.catch_message, __rebase_to_D3"),
      ("length and checksum of a candidate", "decoder_top.py DecoderTop.mlen, mcrc")])
prop("C02", "The division of the stream into chunks does not matter",
     "However a byte stream is cut into successive chunks (including empty ones, single bytes and cuts inside a header, payload or checksum), the "
     "frames extracted in total, their order and the number of parse errors are the same as when the stream is offered in one piece.",
     ["inputs", "histories"], "every cut position of every stream within the bounds",
     "The tests always read 4096-byte chunks of recorded files.",
     ["decoder_top.py"], [("bytes carried over between calls", "decoder_top.py DecoderTop._tail, _synchronized, _skipped_some_bytes")])
prop("C03", "The frame check is CRC-24Q over header and payload",
     "For every byte string up to the longest possible frame the checksum function returns the CRC-24Q of RTCM 10403 (polynomial 0x1864CFB, initial "
     "value 0), and a frame is accepted exactly when its three trailing bytes equal that value over its header and payload.",
     ["inputs"], "every content of byte strings of 0..1029 bytes",
     "The tests compare the checksum of recorded frames only; a wrong table entry or length shows only for particular bytes.",
     ["utilities/CRC24Q.py", "decoder_top.py"], [("table-driven CRC", "utilities/CRC24Q.py CRC24Q.calc"), ("check of a frame", "decoder_top.py mcrc")])
prop("C04", "Bit fields are read exactly and never beyond the buffer",
     "Reading an unsigned or signed bit field at any start position with any length of 1 to 128 bits returns exactly the big-endian value of those "
     "bits; a read that would leave the buffer, start at a negative position or have another length is refused with the bit-reader's own error. "
     "Bit reversal returns the selected bits in opposite order, the signed form in two's complement.",
     ["inputs"], "every buffer content, start and length within the bounds",
     "The tests use a few positions; width and alignment errors show for particular combinations only.",
     ["utilities/bits.py"], [("field extraction and sign extension", "utilities/bits.py Bits.getbitu, getbits, revbitu, revbits")])
prop("C05", "Ephemeris messages decode to exactly their transmitted fields",
     "Every valid ephemeris message (GPS 1019, GLONASS 1020, NavIC 1041, BeiDou 1042, QZSS 1044, Galileo F/NAV 1045 and I/NAV 1046) decodes in raw "
     "mode to a data block of its own kind whose fields are exactly the integers at the positions, widths and signedness that the RTCM standard gives "
     "them (sign-magnitude for GLONASS), with all fields of the message present. Trailing bytes after the message do not change the result.",
     ["inputs"], "every payload of each message number",
     "One recorded message per type leaves most bits constant; an offset or width error shows for other values only.",
     ["sub_decoders/RTCM_EPH.py", "gnss_types/ephemeris.py"],
     [("field tables and unpacking", "sub_decoders ephemeris decoder"), ("data blocks", "gnss_types/ephemeris.py")])
prop("C06", "Scaled ephemerides equal raw fields times the standard's resolution",
     "In scaled mode every field of every ephemeris message equals its transmitted integer multiplied by the resolution the RTCM standard gives it "
     "(within double rounding; angles stay in semicircles), the GLONASS frequency slot is the transmitted code minus 7 and the GLONASS frame time is "
     "in seconds; fields without a unit keep their integer value.",
     ["inputs"], "every payload of each message number",
     "The recorded messages cannot show a wrong sign, resolution or clipping for all values.",
     ["sub_decoders/RTCM_EPH.py"], [("scaling", "sub_decoders ephemeris decoder")])
prop("C07", "Reference points and GLONASS biases decode to exact values",
     "Messages 1005, 1006 and 1230 decode, in raw mode to exactly the transmitted integers, in scaled mode to booleans for the indicators, metres for "
     "the coordinates and antenna height (0.1 mm resolution), the quarter-cycle indicator's meaning and metres for the code-phase biases (2 cm "
     "resolution). The biases of 1230 are attributed to exactly the signals of its mask, in transmission order; a signal outside the mask is marked not valid with "
     "value zero.",
     ["inputs"], "every payload, all sixteen signal masks",
     "One recorded message per type.", ["sub_decoders/RTCM_BASE.py", "gnss_types/base_station.py"],
     [("unpacking and scaling", "sub_decoders base station decoder")])
prop("C08", "Descriptors, texts and announcements of every length decode",
     "Messages 1007, 1008, 1033 (strings), 1029 (UTF-8 text) and 1013 (announcement list) decode for every declared string length 0 to 255 and every "
     "number of announcements 0 to 31, to exactly the transmitted strings, lengths, identifiers, times and announcement entries (raw: the bytes as "
     "hexadecimal words and integers; scaled: the text, booleans and seconds). For 1013 an announcement count of zero means that "
     "the list fills the rest of the message; when a message number is announced twice, the later entry counts.",
     ["inputs"], "all string lengths, contents and list lengths within the bounds",
     "The recorded messages have one length each.", ["sub_decoders/RTCM_BASE.py", "gnss_types/base_station.py"],
     [("length-driven unpacking", "sub_decoders base station decoder")])
prop("C09", "MSM messages decode to exactly their transmitted fields",
     "Every valid MSM1 to MSM7 message of the seven systems decodes in raw mode to exactly the transmitted header fields, satellite, signal and cell masks "
     "(bit k of a mask standing for entry k+1) and, per satellite and per cell in transmission order, the satellite and signal data integers with the standard's "
     "widths and signedness, whatever the masks select, up to 64 cells. GLONASS epochs are split into day of week and time of day. A message without "
     "satellites decodes to its header alone.",
     ["inputs"], "every header, mask and data content within the bounds",
     "Recorded MSM4, 5 and 7 files with common satellite counts; MSM1..3 and 6 and other mask shapes are not reached.",
     ["sub_decoders/RTCM_MSM.py", "gnss_types/observables.py"],
     [("header, mask and block extraction", "sub_decoders/RTCM_MSM.py BareObservablesMSM17Decoder")])
prop("C10", "MSM4-MSM7 observables have the standard's physical values",
     "For every MSM4 to MSM7 message of the seven systems the scaled output holds, for exactly the cells of the message and under the RINEX code of their signal and the satellite's "
     "number, pseudorange and phase range in metres, phase-range rate in m/s (MSM5 and MSM7), C/N0, minimum lock time in ms and half-cycle flag as the RTCM "
     "standard defines them from rough and fine parts. A value whose rough or fine part carries the standard's invalid marker is left out, and no other value is "
     "affected by it. The header gives the epoch, day, satellites, signals with carrier frequency, and the meaning of the clock and smoothing indicators.",
     ["inputs"], "every field value, invalid marker and lock-time code within the mask shapes of the bounds",
     "Recorded files contain few invalid markers, lock-time segments and signals.",
     ["sub_decoders/RTCM_MSM.py", "utilities/RTCM_utilities.py"],
     [("scaling", "sub_decoders/RTCM_MSM.py Bare2Scaled"), ("signal, lock time and marker tables", "utilities/RTCM_utilities.py MSMT")])
prop("C11", "MSM1-MSM3 observables have the standard's physical values",
     "For every MSM1 to MSM3 message of the seven systems the scaled output holds, for exactly the cells of the message and under their signal's RINEX code "
     "and satellite number, the pseudorange (MSM1, MSM3) and phase range (MSM2, MSM3) modulo one light millisecond in metres, and with each phase range its minimum lock "
     "time in ms and half-cycle flag. A value whose fine part carries the invalid marker is left out, without effect on the values of any other cell.",
     ["inputs"], "every field value, invalid marker and lock-time code within the mask shapes of the bounds",
     "No test data of these types contain invalid markers.",
     ["sub_decoders/RTCM_MSM.py", "utilities/RTCM_utilities.py"], [("scaling", "sub_decoders/RTCM_MSM.py Bare2Scaled")])

NA = []

EXTRA = os.path.join(ROOT, "tools", "spec_more.py")
if os.path.exists(EXTRA):
    exec(compile(open(EXTRA).read(), EXTRA, "exec"))


def main():
    claimed = []
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for i, title, st, over, text, why, files, mech, obs, note in sorted(P):
            a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
            if obs:
                a["observe_at"] = obs
            f.write(json.dumps({"id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": text},
                                "why_tests_cant": why, "anchors": a}) + "\n")
            claimed.append((i, note))
    na = {n["property"] for n in NA}
    m = {"version": 1, "setup_cmd": "true",
         "checks": [{"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i, "technique": TECH,
                     "level": "model_checking",
                     "level_note": (note + " " if note else "") + "Bounded: holds for every input value within the bounds named in the evidence file (bounds, outside_bounds, assumptions); "
                     "trusts the engine's model of Python (each explored path is replayed on the real interpreter and compared) and Z3."}
                    for i, note in claimed if i not in na],
         "not_applicable": NA}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
