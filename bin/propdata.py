def P(id, title, statement, over, qtext, why, files, mech, technique, note, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    DATA.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
                 'anchors': a, 'technique': technique, 'note': note})
DATA = []
NOT_APPLICABLE = {}
NOTES = 'Every check is a python driver (bin/check.py) around C++ harnesses that link the libraries built from /repo; no source hooks are needed.'

DIFF = 'online differential monitor: unmodified simulator vs independent reference interpreter on generated programs'
DIFFN = 'held on the generated programs (tens of thousands per quick run), every byte of storage, all registers, old PSWs and storage keys compared; nothing is said of programs not generated'
CPUWHY = 'The unit tests run one instruction at a time on hand-picked operands; operand values, alignments, overlaps, register aliasing and instruction sequences are unbounded.'
CPU50 = ['src/model2050/cpu2050.c', 'src/model2050/cros2050.c', 'src/model2050/ros.txt', 'src/device/cpu.c']
CPU30 = ['src/model2030/cpu2030.c', 'src/model2030/cros2030.c', 'src/model2030/ccros2030.txt', 'src/device/cpu.c']

for (m, F, ids) in (('50', CPU50, ('P01', 'P02', 'P04')), ('30', CPU30, ('P05', 'P06', 'P07'))):
    P(ids[0], 'Model %s: fixed-point, logical and branch instructions match the architecture' % m,
      'Any sequence of System/360 fixed-point, logical, shift, load/store and branch instructions (including executed ones) run on the simulated Model %s leaves exactly the registers, storage, condition code, instruction address and instruction length that the System/360 architecture defines. Nothing else in storage changes.' % m,
      ['programs', 'inputs'], 'every program of those instructions, every operand value, alignment, register choice and PSW mode',
      CPUWHY, F, [('microcycle', F[0] + ': cycle_20%s()' % m), ('read-only storage image', F[2])], DIFF, DIFFN)
    P(ids[1], 'Model %s: decimal, packing and editing instructions match the architecture' % m,
      'Every decimal instruction (pack, unpack, move with offset, zero-and-add, compare, add, subtract, multiply, divide, convert, edit, edit-and-mark) on the simulated Model %s produces the digits, sign, condition code and interruption that the architecture defines, for every operand length, overlap that the architecture defines, sign code and invalid digit.' % m,
      ['inputs', 'programs'], 'every operand length, digit string, preferred or alternate sign code, invalid digit or sign position, alignment',
      CPUWHY, F, [('microcycle', F[0] + ': cycle_20%s()' % m), ('decimal correction and invalid-digit detection', F[0])], DIFF, DIFFN)
    P(ids[2], 'Model %s: program interruptions, storage protection and privilege are exact' % m,
      'On the simulated Model %s every program that commits an operation, privileged-operation, execute, protection, addressing, specification, data, overflow or divide exception is interrupted with the right code, the old PSW identifies the instruction, and storage and registers the architecture says are unchanged are unchanged; no store ever succeeds in a block whose key does not match, and a program without an exception is never interrupted.' % m,
      ['programs', 'inputs'], 'every instruction, every storage key and PSW key, supervisor or problem state, address at and beyond the end of storage, misaligned operand, and undefined operation code',
      CPUWHY + ' Protection is tested for a few instructions with one key pair.', F, [('storage protection compare', F[0]), ('trap addresses and interruption microcode', F[2])], DIFF, DIFFN)
P('P03', 'Model 50: floating-point instructions match the architecture',
  'Every short and long floating-point load, add, subtract, compare, multiply, divide, halve and store on the simulated Model 50 gives the hexadecimal sign, characteristic and fraction (including guard digit, normalization, overflow, underflow and significance behaviour), condition code and interruption that the architecture defines.',
  ['inputs', 'programs'], 'every pair of operands, normalized or not, every program mask',
  CPUWHY, CPU50, [('microcycle', 'src/model2050/cpu2050.c: cycle_2050()'), ('floating-point microcode and stat setting', 'src/model2050/ros.txt')], DIFF, DIFFN)
P('P20', 'Device events are delivered exactly once and on time',
  'Every event scheduled with add_event() is delivered exactly once, to the routine, device and argument it was scheduled with, on exactly the clock step (call of advance()) its delay asks for; a delay of zero runs the routine at once; cancel_event() removes exactly the earliest pending event of that device and routine, and changes the time of no other event; callbacks may themselves schedule and cancel events. The order among events due on the same step is not part of the property.',
  ['schedules', 'histories'], 'every history of schedule, cancel and clock-step operations, also issued from inside callbacks, over any devices, routines and delays',
  'event_test.c runs a few fixed sequences; the list of relative delays is only wrong for particular interleavings of insertions, cancellations and callbacks that change the list while it is being drained.',
  ['src/event.c', 'src/event.h'], [('relative-time list insertion', 'src/event.c: add_event()'), ('removal gives its time to its successor', 'src/event.c: cancel_event()'), ('delivery', 'src/event.c: advance()')],
  'online monitor: abstract timetable fed by the same operations, every callback checked when it runs; AddressSanitizer', 'held on the generated histories, operations from inside callbacks included',
  [('event_list', 'pending events with delays relative to their predecessor')])
P('P21', 'Configuration files are read as documented and malformed lines do no damage',
  'For every configuration line of the documented form (device name, optional model letter, -n and /n numbers, hexadecimal address, options with optional quoted or unquoted values, comment) load_config() and load_line() call the create routine of exactly the named device once, in file order, with exactly that model, numbers, address, options and values (names and unquoted values in upper case, quoted values verbatim); a missing address or a refusing device ends the load with a failure result, unknown devices are skipped, and LOG directives set exactly the named classes. A malformed line of any content terminates, corrupts no memory, and leaves the lines after it unaffected.',
  ['inputs'], 'every configuration file with lines below the 1024 byte line buffer: any spacing, case, quoting, numbers, comments, separators, and any malformed bytes',
  'There are no tests of the configuration reader.', ['src/conf.c', 'src/conf.h', 'src/logger.c'],
  [('device word', 'src/conf.c: get_model()'), ('options and values', 'src/conf.c: get_option(), get_string()'), ('dispatch over the device list section', 'src/conf.c: load_config(), load_line(), dev_list()')],
  'generated files with the expected definitions known by construction, recording create routines, AddressSanitizer', 'held on the generated files and hostile lines')
P('P22', 'Log messages are neither lost, duplicated nor misfiled',
  'With a log file open and logging enabled, every message of an enabled class (and every information, warning and error message) appears exactly once in the log, in the order it was issued, as a line labelled with the step count and the name of its class, also when a line is written in several parts or another message comes between them; nothing else is in the log, in particular no message of a class not enabled or issued while logging is disabled. Information, warning and error messages are shown on standard error whether logging is enabled or not. A LOGFILE line opens the file it names; a LOGLEVEL line naming an unknown class, or giving a class a value, is refused.',
  ['inputs', 'histories'], 'every sequence of log calls of the 19 classes, every set of enabled classes, and enabling and disabling in between',
  'No test looks at the log; the traces are how a user of the simulator debugs.', ['src/logger.c', 'src/logger.h'], [('message output', 'src/logger.c: log_print(), log_print_s(), log_print_c()')],
  'offline comparison of the recorded log file with the sequence of calls', 'held on the generated sequences')
P('P23', 'Devices and disk controllers are found, started and stepped exactly once',
  'find_chan() returns the first attached device of the channel whose masked address matches, and none when no attached device does; attaching or detaching a device never loses, duplicates or reorders others on any channel 0 to 7; step_disk() runs every registered controller exactly once; system_init() and system_shutdown() call each attached device once.',
  ['histories'], 'every history of attach, detach and look-up over all channels, addresses and masks',
  'device_test.c attaches a few devices in one order.', ['src/device/device.c', 'src/device/device.h'], [('channel lists', 'src/device/device.c: add_chan(), find_chan(), del_chan()'), ('controllers', 'src/device/device.c: add_disk(), del_disk(), step_disk()')],
  'online comparison with plain lists, AddressSanitizer', 'held on the generated histories')
P('P24', 'Character codes, card codes and parity tables are right for every value',
  'For every one of the 256 EBCDIC bytes the card code is the standard System/360 punch combination and reading that combination gives the byte back; every other of the 4096 hole patterns is recognised as no character; the ASCII and EBCDIC graphics translate to each other, characters outside ASCII have no punch code, the odd-parity table gives odd parity, and the BCD parity and BCD to EBCDIC tables used for 7 track tape are the standard ones.',
  ['inputs'], 'every byte, every 12 bit hole pattern, every BCD code',
  'Tests translate a handful of letters.', ['src/device/card.c', 'src/device/xlat.c', 'src/device/card.h', 'src/device/xlat.h'], [('card code tables', 'src/device/card.c: ebcdic_to_hol_table, init_card_context()'), ('translation and parity tables', 'src/device/xlat.c')],
  'exhaustive run of the translation routines against codes derived from the published rules', 'exhaustive over the tables')
P('P25', 'Card decks survive reading, stacking and punching in every format',
  'Loading a deck of any length in the text, EBCDIC, binary, octal or automatic format puts exactly the cards of the file, in order, behind those still in the hopper, with the documented column images (tabs, over-long lines, ~raw, ~eor, ~eof, ~eoi and ~ cards, characters without a code as an error column); reading returns each card once; cards stacked or saved are written exactly once, in order, in the form of the selected mode so that decoding the file gives the same images (text mode puts ? for what is no character, EBCDIC mode zero); hopper and stacker counts are exact; empty decks, missing files and failed saves do no damage.',
  ['inputs', 'histories'], 'every history of load, read, stack, save, blank and empty operations, every card image, every deck length and mode; text lines up to 400 characters; automatic mode for decks the documented rule determines',
  'card_test.c loads four small text decks.', ['src/device/card.c', 'src/device/card.h'], [('deck parsing', 'src/device/card.c: read_deck(), _parse_card()'), ('punching', 'src/device/card.c: _punch_card(), stack_card(), save_deck()')],
  'online comparison with a list of card images, independent encoder and decoder of the deck formats, AddressSanitizer', 'held on the generated histories')
P('P26', 'Tape images return every record and mark written to them',
  'For each image format (TAP, E11, P7B), reading a tape forward or backward delivers exactly the bytes of each record and each tape mark of the image in order, reports end of record, tape mark, end and beginning of tape where they are, and leaves the tape at the record boundary even when a record is only partly read; records and marks written replace what followed and are in the file once the tape is detached, for every record length (also longer than the buffer); a protected tape is never changed; the load point, ring and track state are right after attaching, rewinding and detaching; a missing file leaves the drive offline; and damaged or arbitrary files never cause an endless loop or an access outside the buffer.',
  ['inputs', 'histories'], 'every history of record and mark reads forward and backward, writes, rewinds, detaches and attaches; record lengths 1 to 70000; protected or not; any content of a damaged file',
  'tape_test and model2415 tests read and write a few short records of one small image.', ['src/device/tape.c', 'src/device/tape.h'],
  [('buffer refill and write back', 'src/device/tape.c: tape_read_forw(), tape_read_back(), tape_read_frame(), tape_write_frame(), tape_finish_rec()'), ('attach, detach, rewind', 'src/device/tape.c: tape_attach(), tape_detach(), tape_rewind_frames()')],
  'online comparison with a byte image kept by an independent encoder and decoder of the three formats; file compared at every detach; AddressSanitizer and UBSan; operation-count watchdog on damaged files', 'held on the generated histories')
P('P27', 'Disk volumes keep every record written to them and nothing else',
  'For each drive type (2311, 2314, 2303, 2302): a volume formatted on request is a CKD image with the header, the home address, an R0 and an empty R1 of every track, the IPL records and the volume label given; a file that is no volume, or a missing one, is neither attached nor touched unless initialisation is asked for; attaching and detaching alone never changes a volume and reads its label back. A seek, recalibrate or head selection brings the drive to exactly that track, signals busy, attention and end of cylinder as it should, and one revolution hands over the home address, count, key and data fields of that track with right flags, checksums and address marks, also after an address mark search or after the drive ran unselected. Data written in place or by a formatting write replaces exactly the addressed fields (formatting also ends the track there) and is in the file after a seek or detach; no other track changes. Damaged images cause no memory error.',
  ['inputs', 'histories'], 'every track of home address and records (key 0 to 255, data up to the track), every cylinder and head, every order of seeks, head selections, revolutions, searches, unselected stepping, updates and formatting writes; any file content',
  'model2844 tests format one volume and run a few fixed channel commands on a few records of one cylinder; nothing compares the image file, other drive types or damaged files.',
  ['src/device/dasd.c', 'src/device/dasd.h'],
  [('format, attach, detach', 'src/device/dasd.c: dasd_format(), dasd_attach(), dasd_detach()'), ('rotation and read stream', 'src/device/dasd.c: dasd_read_byte(), dasd_step(), dasd_update()'), ('write stream', 'src/device/dasd.c: dasd_write_byte()'), ('seek and heads', 'src/device/dasd.c: dasd_settags(), seek_callback()')],
  'online comparison of every byte, address mark and drive tag with an independent model of the tracks; image files decoded by an independent CKD reader after detach; AddressSanitizer and UBSan with damaged images', 'held on the generated volumes and histories')
P('P28', '1442 reader punch: every command moves, reads and punches the right cards',
  'For every sequence of channel commands, hopper loads and operator feeds, with one or two units on a multiplexor or selector channel, any channel speed, status stacking, command chaining and any byte count: a 1442 answers only its own address, goes through initial selection, data transfer and ending status according to the channel interface (tags, odd parity on the bus, data unchanged until taken), moves cards from hopper to read station, punch station and the stacker selected exactly as each command says, reads the columns of the card at the read station in order and punches the bytes sent and nothing else into the card at the punch station, stops when told to, presents channel end and device end once each with unit check and unit exception exactly when due, and its sense byte tells the reason (command reject, intervention required, data check, overrun). A command byte with wrong parity is refused with unit check and bus out check in the sense byte and does nothing else, and a system reset between operations leaves no status behind.',
  ['inputs', 'histories', 'schedules'], 'every order of read, write, feed, sense, no-operation and invalid commands, counts 1 to 120, all card images, empty hopper with and without end of file, one or two units, stacked statuses, slow channel',
  'model1442 tests run fourteen fixed command sequences on one unit with an immediate channel.', ['src/model1442/model1442.c', 'src/device/card.c'],
  [('interface state machine', 'src/model1442/model1442.c: model1442_dev()'), ('card path', 'src/model1442/model1442.c: model1442_feed(), feed_callback()'), ('read and punch', 'src/model1442/model1442.c: read_callback(), write_callback()')],
  'software channel monitoring the bus protocol; results, stackers and sense compared with an independent model of the card path; AddressSanitizer', 'held on the generated histories')
P('P29', '1443 printer: paper, forms position and status follow every command',
  'For every sequence of write, space, skip, sense and invalid commands, any forms length and channel tape, any text and byte count, on a multiplexor or selector channel of any speed, with status stacking, command chaining and selection at any moment: the text of each write (at most 120 characters, translated from EBCDIC, a period where there is no graphic) appears in the output file on exactly the page and line at which the forms stand, a space command moves the forms 0 to 3 lines and a skip to the next line punched in the channel, across page ends, and never anywhere else; bytes are taken in order until the count or 120; channel end and device end are each presented once, with unit exception when a write spaces over a line with channel 12 and unit check with channel 9, device end only after the carriage has moved; a selection while it moves gets control unit busy and a later control unit end, one while status is pending gets that status; sense tells the reason once; the interface sequence and parity are right at every step. A command byte with wrong parity is refused with unit check and bus out check in the sense byte and does nothing else, and a system reset between operations leaves no status behind.',
  ['inputs', 'histories', 'schedules'], 'every order of writes, spaces, skips, senses, invalid commands, texts, byte counts, forms lengths, channel tapes, selections during motion, stacked statuses',
  'model1443 tests check three selections of a printer which is not ready: no line is ever printed by a test.', ['src/model1443/model1443.c'],
  [('interface state machine', 'src/model1443/model1443.c: model1443_dev()'), ('text and carriage', 'src/model1443/model1443.c: print_line()'), ('character translation', 'src/device/xlat.c')],
  'software channel monitoring the bus protocol; the output file decoded to pages and lines and compared, with status and sense, with an independent model of the carriage; AddressSanitizer, UBSan', 'held on the generated histories')
P('P30', '2415 tape control: records, marks, position and status follow every command',
  'For every sequence of write, read, read backward, write tape mark, forward and backward space record and file, erase, rewind, rewind and unload, sense, no-operation, mode set and invalid commands, any record and byte counts, on the nine-track drives of a 2415 at a multiplexor or selector channel of any speed, with status stacking, command chaining and drives rewinding while others work: a write puts exactly the bytes of the channel on the tape as one record at the position of the drive, a read returns the record there (backward: reversed) up to the count, spacing stops where the tape mark or record says, and the image file holds exactly what was written; unit exception comes with every tape mark met, unit check with intervention required for a drive that is absent or not ready and command reject without a write ring, busy only from a drive that rewinds; channel end and device end come once for each command and device end once at the end of a rewind with the address of that drive; a chained command is never refused; the interface sequence and parity are right at every step. A command byte with wrong parity is refused with unit check and bus out check in the sense byte and does nothing else, and a system reset between operations leaves no status behind.',
  ['inputs', 'histories', 'schedules'], 'every order of commands on 1 to 4 drives with any records and marks, any counts, rewinds overlapping other operations, stacked statuses, both channel types; operations on seven-track tape, data past the last record written over an older one, and erase gap contents are not part of this property',
  'model2415 tests read and sense on one drive in fixed order: no test writes, spaces, rewinds or chains behind a channel.', ['src/model2415/model2415.c', 'src/device/tape.c'],
  [('interface state machine', 'src/model2415/model2415.c: model2415_dev()'), ('tape motion', 'src/model2415/model2415.c: tape_callback(), device_cmd(), model2415_rewind_callback()'), ('image file', 'src/device/tape.c')],
  'software channel monitoring the bus protocol; data, status, sense and image files compared with an independent model of the tapes; AddressSanitizer, UBSan', 'held on the generated histories')
P('P31', '2844/2314 disk: seek, search, read, write and format act on the right record',
  'For every sequence of channel programs on the 2314 drives of a 2844 at a selector channel (set file mask, seek, seek head, recalibrate, search identifier, search key, read home address, record zero, count, data, key and data, count key and data, and IPL, write data, key and data, home address, record zero and count key and data, sense, no-operation and invalid commands, chained in any valid order, any counts on reads, full counts on writes), on volumes with any records (with and without keys, any lengths from nothing to most of a track), with several drives in use, status stacking and control unit busy: a seek positions the arm of the addressed drive and no other; a search ends with status modifier exactly at the record whose identifier or key is equal, and with no record found when no record on the track is; a read returns exactly the bytes of the area it should, of the record searched for or the next one, also past the index point, up to the count; unit exception comes with a data length of zero; a write replaces exactly the area it should and leaves every other byte of the volume as it was; the image files hold exactly that in the end; commands out of sequence, against the file mask, invalid, or with an invalid seek address end in unit check with the right sense and change nothing, a drive which is absent gives intervention required; the control unit answers only its own addresses, gives one control unit end after it was found busy, and the interface sequence and parity are right at every step.',
  ['inputs', 'histories', 'schedules'], 'every order of programs of these kinds on 1 to 3 drives, any volume contents, any head of a set of cylinders, any rotational position at the start; write counts shorter than the field, written key and data fields of one or two bytes, reading on in the chain after a write of key and data, stacking of control unit end, search high, erase and multi-track commands are not part of this property',
  'model2844 tests run 19 fixed programs on one formatted track: rotational position, other heads, other drives, several records, keys and rejected commands interact with the microcode only over long histories.', ['src/model2844/model2844.c', 'src/device/dasd.c'],
  [('control unit', 'src/model2844/model2844.c: step_2844(), model2844_dev()'), ('drive', 'src/device/dasd.c: dasd_settags(), dasd_read_byte(), dasd_write_byte(), dasd_update()')],
  'software channel monitoring the bus protocol; data, status, sense, arm positions and image files compared with an independent model of the volumes; AddressSanitizer, UBSan', 'held on the generated histories')
P('P10', 'Panel keys, interrupt key and interval timer act once, between instructions',
  'While any program runs on the simulated Model 50 or Model 30: every press of the INTERRUPT key leads to exactly one external interruption (code bit 0x40), held pending while the system mask disables it; with the interval timer switched on every clock pulse steps the word at location 80 down once (by 0x600 on the 2050, by 0x600 or 0x700 on the 2030), never when it is switched off, and a step from positive to negative gives exactly one external interruption with code bit 0x80; every interruption comes between two instructions, stores the right old PSW (mask, key, condition code, program mask, instruction address) and loses nothing: the registers, storage and condition codes of the interrupted program are those of the program run alone. STORE puts exactly the keyed data at the keyed location (main storage; on the 2050 also the general registers) with good parity and nothing elsewhere, DISPLAY shows its contents, and neither disturbs the program; on the 2050 SET IC and START begin at the keyed address, STOP halts at an instruction boundary, a stopped machine changes no storage, and START resumes where it stopped.',
  ['inputs', 'histories', 'schedules'], 'every program of fixed-point, logical and character instructions and mask changes, every moment and order of panel keys and clock pulses (a pulse or key follows the previous one only after the earlier one was served), any timer value, any location; instruction-step mode, storage key and bump storage switches, and on the 2030 STOP and SET IC are not part of this property',
  'the tests start programs by setting internal state and never press a console key or step the timer; an interruption may come at any instruction.',
  ['src/model2050/cpu2050.c', 'src/model2030/cpu2030.c', 'src/device/cpu.c'],
  [('panel and timer', 'src/model2050/cpu2050.c: cycle_2050()'), ('panel and timer', 'src/model2030/cpu2030.c: cycle_2030()'), ('clock', 'src/device/cpu.c: timer_event')],
  'online monitor: the interruption log written by the running program is replayed on an independent reference interpreter, which must pass through every logged state; storage, registers and counts compared; AddressSanitizer, UBSan run', 'held on the generated programs and histories')
P('P11', 'Initial program load works from any channel and any earlier state',
  'On the simulated Model 50 and Model 30, setting the load-unit switches to a device on the multiplexor or a selector channel and pressing LOAD, whatever storage, registers and storage keys held before, reads 24 bytes from that unit to location 0, carries on with the two CCWs read there and with the CCWs these read in (command chaining, transfer in channel, any counts), leaves exactly the bytes the device sent in storage and nothing else changed (but for the unit address stored at locations 2 and 3), sends the device exactly those read commands and other units nothing, then loads the PSW from location 0 (condition code, program mask and address) and runs the loaded program with its architected result, load state off. A load that ends with unit check changes nothing but the bytes read, starts no program and stays in load state; the next load works, with or without a system reset in between.',
  ['inputs', 'histories', 'schedules'], 'every unit address and channel, every loading channel program of one to five read CCWs, record lengths, device speeds and burst sizes, any earlier contents of storage and any earlier load, with a PSW of system mask and key zero and no interruption pending when LOAD is pressed; devices which present channel end and device end separately on a selector channel, and unit check after fewer than 24 bytes there (4 on the multiplexor channel), are not part of this property',
  'no test presses LOAD: the load microprogram, the channel and the device only meet in the whole machine.',
  ['src/model2050/cpu2050.c', 'src/model2030/cpu2030.c'],
  [('load key, reset and channels', 'src/model2050/cpu2050.c: cycle_2050()'), ('load key, reset and channels', 'src/model2030/cpu2030.c: cycle_2030()')],
  'scripted devices on the real machine; storage, device commands and the result of the loaded program compared with an independent model of the load and the reference interpreter; AddressSanitizer, UBSan run', 'held on the generated loads apart from the listed known finding')
P('P08', 'Model 50 multiplexor channel carries out every channel program exactly',
  'On the 2050 multiplexor channel, for every channel program (read, read backward, write, sense, control and immediate commands; command and data chaining, transfer in channel, skip, suppressed length indication, program-controlled interruption; any data address, count and protection key) and whatever number of bytes the device sends or takes, in burst or byte mode, on several devices at once and while the CPU computes: exactly the bytes the CCWs designate are stored or sent, in order, and no other storage changes; the device sees exactly the commands of the program in order, with correct bus parity, and is told to stop when and only when the count is used up; Start I/O gives the right condition code; each status the devices present reaches the program exactly once, in a CSW with the right device address, key, command address, residual count, unit status and channel status (incorrect length, protection check, program check, PCI); no operation is lost or hangs; and a computation interleaved with the input/output gets the same results as alone.',
  ['inputs', 'schedules', 'histories'], 'every channel program of one to four chained commands with up to four data-chained areas each, 1 to 4 devices, any relation of device and CCW counts, any device speed and burst size, storage keys, CPU activity and interruption masks; Test I/O, Halt I/O and the selector channels are not part of this property',
  'io_test, sel_test and mul_io run some thirty fixed channel programs with one test device; the data path, the unit control words and the interruption buffer interact only for particular timings of several devices.',
  ['src/model2050/cpu2050.c'], [('multiplexor channel', 'src/model2050/cpu2050.c: cycle_2050()')],
  'scripted devices driven by the real CPU, microprogram and channel; online monitor of the channel interface at the device; CSW, storage and computation results compared with an interpreter of channel programs and the reference CPU; AddressSanitizer run', 'held on the generated programs apart from the listed known findings')
P('P09', 'Model 30 multiplexor channel carries out every channel program exactly',
  'On the 2030 multiplexor channel, for every channel program (read, read backward, write, sense, control and immediate commands; command and data chaining, transfer in channel, skip, suppressed length indication, program-controlled interruption; any data address, count and protection key) and whatever number of bytes the device sends or takes, in burst or byte mode, on several devices at once and while the CPU computes: exactly the bytes the CCWs designate are stored or sent, in order, and no other storage changes; the device sees exactly the commands of the program in order, with correct bus parity, and is told to stop when and only when the count is used up; Start I/O gives the right condition code; each status the devices present reaches the program exactly once, in a CSW with the right device address, key, command address, residual count, unit status and channel status (incorrect length, protection check, program check, PCI); no operation is lost or hangs; and a computation interleaved with the input/output gets the same results as alone. A status modifier in the initial status of an immediate command is outside the property on the Model 30.',
  ['inputs', 'schedules', 'histories'], 'every channel program of one to four chained commands with up to four data-chained areas each, 1 to 4 devices, any relation of device and CCW counts, any device speed and burst size, storage keys, CPU activity and interruption masks; Test I/O, Halt I/O and the selector channels are not part of this property',
  'io_test, sel_test and mul_io run some thirty fixed channel programs with one test device; the data path, the unit control words and the interruption buffer interact only for particular timings of several devices.',
  ['src/model2030/cpu2030.c'], [('multiplexor channel', 'src/model2030/cpu2030.c: cycle_2030()')],
  'scripted devices driven by the real CPU, microprogram and channel; online monitor of the channel interface at the device; CSW, storage and computation results compared with an interpreter of channel programs and the reference CPU; AddressSanitizer run', 'held on the generated programs apart from the listed known findings')
DATA.sort(key=lambda d: d['id'])
