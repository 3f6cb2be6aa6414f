prop("C12", "Messages whose contents do not fit their length give no data",
     "A frame with a correct checksum whose payload does not fit its message type yields no data at all, counts as one decoding attempt and one decoding error, raises nothing, "
     "and leaves the decoding of the next message unaffected: ephemerides shorter than the message, 1005/1006 of another length, strings, announcement "
     "lists and bias lists whose counts do not add up to the payload length, MSM headers that are cut, MSM masks that need another length, announce more than 64 "
     "cells or satellites without a cell or, when values are scaled, a signal number the system does not use. A payload that does fit is never refused for its length.",
     ["inputs"], "every payload content at the lengths of the bounds, count and mask fields included",
     "The tests contain no malformed message.",
     ["decoder_top.py", "sub_decoders/RTCM_EPH.py", "sub_decoders/RTCM_BASE.py", "sub_decoders/RTCM_MSM.py"],
     [("consistency checks of the sub-decoders", "sub_decoders decode methods"), ("error counting", "decoder_top.py DecoderTop.decode, catch_decoder_exceptions")])
prop("C13", "The conversion statistics count exactly what happened",
     "After every step of any conversion the statistics are exact: one decoding attempt for each offered message whose number the chosen mode supports and none for others, "
     "one decoding error for each attempt that gave no data, one parsing error for each valid frame that follows dropped bytes, one printing attempt for each printed block and "
     "one printing error for each block whose output folder or file could not be created. An error in one message or output changes no other count "
     "and no other output; an unknown mode gives no converter.",
     ["inputs", "histories"], "all message numbers, and every sequence of events within the bounds",
     "The tests never look at the statistics, nor provoke errors.",
     ["converter_top.py", "decoder_top.py", "printer_top.py"],
     [("statistics", "converter_top.py get_statistics"), ("counters", "decoder_top.py DecoderTop; printer_top.py PrinterTop.print")])
prop("C14", "MARGO files hold exactly the decoded observables, one row per message",
     "In modes MARGO and JARGO every decoded MSM message adds exactly one row to the file of each observable and signal it carries (pseudorange in metres, phase in cycles, Doppler in Hz as minus "
     "rate over wavelength, C/N0), in message order, after a two-line header with the observable's file id, the satellite numbers and the carrier frequencies; one column per satellite of the "
     "system in the documented width and decimals. A satellite without a value has NaN; satellites beyond the table are not shown. A phase with half-cycle ambiguity is NaN unless the half-cycle "
     "control is on; lock-time and ambiguity-indicator files exist exactly when their controls are on. No other file is written.",
     ["inputs", "histories"], "every observable value, validity marker, flag and control within the mask shapes and sequences of the bounds",
     "The reference files cover a few recorded epochs with one setting of the controls.",
     ["printers/margo_printer.py"], [("rows and headers", "printers/margo_printer.py MargoCore"), ("files", "printers/margo_printer.py PrintMARGO")])
prop("C15", "MARGO rows carry the GPS time of week of their message",
     "The first column of every MARGO row is the GPS time of week in milliseconds, inside 0 to 604799999: the transmitted time for GPS, Galileo, SBAS, QZSS and NavIC, 14 s later (modulo one week) "
     "for BeiDou, and for GLONASS the day of week and time of day minus three hours plus the configured GPS-UTC difference, wrapped into the week.",
     ["inputs"], "every epoch of the week, every GLONASS day and time of day, every GPS-UTC difference within the bounds",
     "The recorded files contain a few minutes of one day.",
     ["printers/margo_printer.py"], [("time conversion", "printers/margo_printer.py MargoCore.conv_to_gps_time")])
prop("C16", "JSON files are valid and hold exactly the decoded data in order",
     "In modes JSON and JSON-B there is, after release, one file per converted message number, each a single valid JSON list: a head entry that names the data class, then one entry per message in conversion "
     "order that reads back as exactly the decoded contents (MSM: under its epoch, with header and auxiliary parts exactly when their controls are on). Pretty view changes layout only. Nothing is written when nothing was decoded.",
     ["inputs", "histories"], "every message content, all settings of the controls, sequences within the bounds",
     "The reference files cover one recorded message or file per type with one setting.",
     ["printers/json_printer.py"], [("JSON output", "printers/json_printer.py")])
prop("C17", "Each mode converts its message kinds into its own outputs and no others",
     "MARGO converts MSM messages only, into observation files; JSON and JSON-B convert all supported messages, scaled and raw respectively, into JSON files; JARGO writes for MSM messages exactly what MARGO writes and for "
     "ephemerides and station messages exactly what JSON writes, character by character. A second conversion of the same messages, later or taking turns with the first, writes the same files.",
     ["inputs", "histories"], "all 64 message numbers in the four modes, mixed sequences within the bounds",
     "The tests use few numbers and do not compare the modes.",
     ["converter_top.py", "printer_top.py", "printers/margo_printer.py", "printers/json_printer.py"],
     [("composition of a mode", "converter_top.py ConverterFactory"), ("choice of the sub-printer", "printer_top.py PrinterTop.print")])
prop("C18", "A decoded block depends on its own message only",
     "Whatever messages (valid, malformed, empty, unknown, of the same or other kinds) were decoded before, a message decodes to the same block as in a fresh decoder. Blocks decoded earlier do not change when later "
     "messages are decoded, a holder's changes to a block do not reach later results, and printing leaves a block as it is.",
     ["inputs", "histories"], "each of the 64 message numbers after histories within the bounds, contents of all messages free",
     "The tests decode each file once with a fresh decoder and compare at the end.",
     ["sub_decoders/RTCM_MSM.py", "sub_decoders/RTCM_EPH.py", "sub_decoders/RTCM_BASE.py", "decoder_top.py", "gnss_types/observables.py"],
     [("state kept between messages", "sub_decoders classes, DecoderTop"), ("containers in data blocks", "gnss_types")])
prop("C19", "Only the work folder of a source file is deleted or written",
     "For every source file and format the program removes old output and creates new output only in the folder named after the source file (without its extension) with '-' and the format appended, next to it; the log file "
     "lies in it and is named after the source. Nothing else is deleted, created or changed: not the source, other outputs, neighbours, or what links in old output point to. If the old folder cannot be removed, the new one not be "
     "created, or a file is in its place, it is left as it is and there is no work folder.",
     ["inputs", "faults"], "every path string within the bounds, every state of the folder and failure of its removal or creation",
     "The tests convert files with ordinary names in one place.", ["run_conversion.py"],
     [("work folder", "run_conversion.py create_work_folder"), ("log file name", "run_conversion.py make_log_file_name"), ("main loop", "run_conversion.py main")])
prop("C20", "Settings come from the ini files as written, completely or not at all",
     "After loading an ini file the MARGO settings (half-cycle and lock-time switches, GPS-UTC difference, the channel of each of the 24 GLONASS satellites) and the JSON settings (pretty view, header, auxiliary data) are "
     "exactly the file's values; if a required section or entry is missing that kind of settings is not available, and the combined settings exist only when both kinds do. Each additional file overrides exactly the entries it "
     "contains; an additional file has no effect on a kind that was not loaded, and a missing or empty one has no effect at all.",
     ["inputs", "histories"], "every value, spelling, missing entry and overlay within the bounds",
     "The tests load defaults.ini and at most one fixed addition.",
     ["controls.py"], [("loading and overlay", "controls.py ConverterControls")])
prop("C21", "Comparison and copies of data blocks are faithful",
     "For every ephemeris or station data block, compare() says True for its copies and for a second decoding of the same message and False when any field, inner entry or type differs: integers and texts exactly, "
     "floats when the difference is clearly above the tolerance (relative to the reference, absolute for a tiny one); it gives a verdict for any two blocks. copy() and deepcopy() give a new block of the same kind with equal "
     "fields; changing it (deepcopy: also inside containers) leaves the original alone. items() and len() cover every field.",
     ["inputs"], "every field value within the bounds",
     "The test suite uses compare() as its own oracle and never checks that it can fail.",
     ["gnss_types/data_class_methods.py"], [("comparison", "gnss_types/data_class_methods.py DataClassMethods.compare"), ("copies", "DataClassMethods.copy, deepcopy")])
prop("C22", "A file is converted completely and in order; faults end it cleanly",
     "decode_rtcm_file offers every byte of the file once and in order, decodes every message found, prints every block obtained, in order, and releases the converter exactly once at the end. If any step raises, or the user interrupts, or "
     "the file cannot be opened, nothing more is converted, the converter is still released and the result is False (an exit request passes through). The program processes the other files nevertheless, replaces old output, writes the same files as "
     "the converter given the whole contents and the same settings, and its log says 'Finished without errors.' exactly when no parsing, decoding or printing error occurred.",
     ["inputs", "crash_points", "histories"], "every content within the bounds, every single fault point of the first calls, all combinations of blocks and gaps",
     "The tests convert undamaged files and inject no faults.",
     ["run_conversion.py"], [("read loop and cleanup", "run_conversion.py decode_rtcm_file"), ("sequence over files and report", "run_conversion.py main")])
prop("C23", "Message numbers and data blocks reach exactly the responsible component",
     "Every message number is classified as the standard has it (system and MSM1..7, ephemeris, legacy 1 to 4, or none). The decoder hands a message, whole and once, to the registered sub-decoder that specifies and implements its number and to no other; an answer "
     "of the wrong kind, no answer or any exception gives no data, one attempt and one error. A data block goes once to the sub-printer responsible for its type; a failed assertion is one printing error. Incomplete "
     "sub-decoders and sub-printers are refused.",
     ["inputs"], "all message numbers, all kinds of answers, free subsets within the bounds",
     "The tests use the built-in components on valid messages only.",
     ["utilities/RTCM_utilities.py", "decoder_top.py", "printer_top.py"],
     [("classification", "utilities/RTCM_utilities.py getSubset"), ("dispatch", "decoder_top.py DecoderTop.decode; printer_top.py PrinterTop.print"),
      ("registration", "DecoderTop.register_decoder; PrinterTop.add_subprinter")])
prop("C24", "MARGO uses the carrier of the signal and the GLONASS channel",
     "Phases in cycles, Doppler values and the frequency line of every MARGO file use the carrier frequency that the standard gives the signal; for GLONASS FDMA signals that of the satellite's configured channel (0.5625 MHz steps "
     "in L1, 0.4375 MHz in L2), whatever the channel table, and conversions with different tables do not influence each other.",
     ["inputs"], "every defined signal, every pair of GLONASS satellite and channel, free observables",
     "One channel table and the signals of the recordings.",
     ["printers/margo_printer.py", "utilities/RTCM_utilities.py"],
     [("frequencies and wavelengths", "printers/margo_printer.py MargoCore.make_crr_frq, make_lambdas, make_header"), ("carrier tables", "utilities/RTCM_utilities.py MSMT.crr_frq")])
prop("C25", "Exactly the sources the user names are converted",
     "Given a list of paths the program converts exactly those that are existing files, in the order given and as absolute paths, and skips the others. Given a single folder it offers, numbered from 1, exactly the folder's own files with the "
     "RTCM extension (default rtcm3), whatever the folder is called, and selects exactly those whose numbers the user enters separated by single spaces, in the order entered; numbers outside the list are ignored, and an answer that is "
     "not such a list of numbers selects nothing.",
     ["inputs"], "every answer, kind of path and folder name within the bounds",
     "The tests name single existing files and never use a folder.", ["run_conversion.py"],
     [("list of sources", "run_conversion.py make_list_of_source_files"), ("arguments", "run_conversion.py create_argument_parser, main")])
prop("C26", "The log of a source tells its own conversion, completely and in order",
     "While a source is converted every record of level info or above goes once and in order, as 'name:LEVEL: message', to the log file of this source, and warnings and above also to the console; records outside a conversion are dropped, and no log receives records "
     "of another source. After each chunk a progress record tells the share of the file that is converted in percent (two decimals), the decoding attempts, and the parsing, decoding and printing errors so far; the last record is the result. A log that cannot be made does not keep the source from being "
     "converted, and missing settings are reported in the log of each source.",
     ["inputs", "histories"], "every sequence of records, openings and closings and all statistics within the bounds",
     "The tests do not look at the log.", ["logger.py", "run_conversion.py"],
     [("two-channel log", "logger.py LoggerConsFile"), ("log file, progress and result", "run_conversion.py init_logger, decode_rtcm_file, main")])
