# Hand-written part of the per-property sections of DESIGN.md: oracle, bounds, cost, what is excluded.
_cpu = ('**Oracle.** `ref360.hpp`, an interpreter of System/360 written from the Principles of Operation.  Each case writes a program into the simulated '
  'storage along the path the interpreter takes (so that branches, EXECUTE targets, overlap and addressing are all defined), runs the real microprogram '
  'cycle by cycle (`cycle_20x0()`), and at the stop compares every byte of storage, the sixteen general and four floating-point registers saved by the program, '
  'every old PSW and the storage keys.  **Observed.** Programs, operation codes executed, program interruptions by code, distinct final states. '
  '**Bounds.** programs of 1 to about 40 instructions, storage 64K (and 128K to 512K on the Model 50 for addressing), PSW keys, modes and masks random. '
  '**Cost.** {q} programs per quick run, about 20 s on 8 cores; a twentieth again under ASan/UBSan. '
  '**Excluded.** results the architecture leaves unpredictable; execution time beyond a generous cycle bound.')
_chan = ('**Oracle.** `chan_mon.cpp`: scripted devices (`vdev.hpp`) hang on the real multiplexor channel; a guest program starts channel programs while it waits, computes or '
  'is interrupted.  Each device checks online that the channel follows the interface (address, command, parity, responses, stop, chaining by suppress-out) and logs every byte. '
  'At the end the CSWs stored at each interruption, the storage image and the result of the computation are compared with an interpreter of channel programs. '
  '**Observed.** operations, bytes, reconnections, stacked statuses, incorrect lengths, protection checks, PCIs. '
  '**Bounds.** 1 to 4 devices, chains of up to 4 commands of up to 4 areas; Test I/O and Halt I/O polling loops, and the selector channels, are not generated. '
  '**Excluded.** the residual count at the end of a data-chained area that exactly matches the device end (architecturally unpredictable); the Model 30 microprogram ignores '
  'status modifier in the initial status of an immediate command, not generated.  **Cost.** about 40 s quick.')
DESIGN = {
 'P01': _cpu.format(q='60,000'), 'P02': _cpu.format(q='60,000') + '  Operand generator: valid and invalid digits and signs, all lengths, overlapping fields, edit patterns.',
 'P03': _cpu.format(q='60,000') + '  Operands: random, near-overflow and underflow exponents, unnormalised, zero fractions, cancelling pairs.',
 'P04': _cpu.format(q='60,000') + '  Every class of exception is provoked on purpose (keys, boundaries, alignment, privilege, undefined codes) with the PSW mask and state random.',
 'P05': _cpu.format(q='60,000'), 'P06': _cpu.format(q='60,000'), 'P07': _cpu.format(q='60,000'),
 'P08': _chan, 'P09': _chan,
 'P20': '**Oracle.** an exact model of the queue (ordered multimap by due time and issue order) consulted at every callback and every step; a third of the calls come from inside callbacks; ASan sees use of freed events.  **Bounds.** 5 devices, 3 routines, delays 0 to a few hundred.  **Cost.** 40,000 histories, 5 s.',
 'P21': '**Oracle.** the generator knows which definitions, options and values it wrote into the file; mock devices in the `.devlist` section record what `load_config()` and `load_line()` hand them.  Hostile lines (truncated, over-long, unknown, control characters) must neither crash, loop nor be accepted.  **Cost.** 12,000 files, 10 s.',
 'P22': '**Oracle.** what was logged through the macros with each category and level against the file contents line by line.  **Cost.** seconds.',
 'P23': '**Oracle.** set of devices and controllers kept by the harness against what lookup, initial start and stepping through the API report and call (each exactly once per step).  **Cost.** seconds.',
 'P24': '**Oracle.** codes derived from the published construction rules (`ebcdic.hpp`), exhaustive over 256 bytes, 4096 hole patterns, 64 BCD codes.',
 'P25': '**Oracle.** list of card images kept by the harness; independent encoder and decoder of the five deck formats; files are compared after each save.  Blank-only text cards, tabs, `~` controls and over-long lines included.  **Cost.** 10 s.',
 'P26': '**Oracle.** byte image of the tape kept by an independent codec of TAP, E11 and P7B; each operation\'s result and the file after each detach are compared; arbitrary damaged files only for safety and termination.  **Cost.** 15 s.',
 'P27': '**Oracle.** model of the tracks (home address, count, key, data with checksums and address marks) compared byte by byte with the stream of `dasd_read_byte()` over whole revolutions; CKD reader on the detached file.  Rotation jitter of up to 3 bytes after a head switch is allowed; that an unselected drive has resynchronised is demanded only after 2,800 steps.  **Cost.** 30 s.',
 'P28': '**Oracle.** model of hopper, read station, punch station and stackers with status and sense (`u1442_mon.cpp`), driven through `swchan.hpp`, which checks every bus step.  The channel leaves a gap of a few steps between operations, drops suppress-out while it waits, and abandons a history (counted) when two units asked for service for more than 60 steps, since then an overrun is legitimate.  **Bounds.** one or two units, 4 to 25 operations.  **Cost.** 4,000 histories, 27 s.',
 'P29': '**Oracle.** two workloads of `u1443_mon.cpp`: `paper` calls the carriage alone (command byte and text into the printer, `print_line()`), `channel` runs it behind `swchan.hpp`; both decode the output file back to (page, line, text) and compare with a model of the forms and the channel tape.  The text of a line printed on twice without spacing is compared without its blanks (the file holds one text after the other).  **Bounds.** forms of 3 to 66 lines, 5 to 200 lines per history; the carriage time is only required to be positive and to delay device end.  **Cost.** 9,000 histories, 20 s.',
 'P10': '**Oracle.** `oper_mon.cpp` (mode panel) runs a random looping program with random SSM changes and presses keys at random moments.  The external interruption handler of the program logs the old PSW and the loop counter; afterwards the reference interpreter `ref360.hpp` executes the same program and must pass, in order, through each logged (address, counter) with the same mask, condition code and program mask.  Counts of key and timer interruptions, the timer word, the registers stored at the end and every byte of storage with its parity are compared.  STORE, DISPLAY, STOP, START, SET IC are done before and between.  **Watches.** stored bytes, displayed register (2050 SDR/L, 2030 R), allow_man_operation, interruption log.  **Bounds.** 3–14 events per program of 4–25 instructions.  A clock pulse or key is only given after the one before was served: the emulator has one flag for each.  **Left out, with the reason.** 2030: the STOP key does not stop the machine, SET IC is not taken and the RATE switch positions 0 and 2 look exchanged; 2050: instruction step, storage key (E switch 2) and bump storage (3) store and display do nothing useful: these functions look unfinished, nobody states what they do, so no oracle was made.  System reset of the 2050 may leave the wait bit of the old PSW on; the harness clears it.  **Cost.** about 1 minute on 8 cores.',
 'P11': '**Oracle.** `oper_mon.cpp` (mode ipl): random storage and keys, one to three scripted devices (`vdev.hpp`) on random channels, a random load (24 bytes plus a random channel program, direct or with CCWs read in and TIC, records longer or shorter than their CCW with suppressed length indication, a first record longer than 24) and a random program, which stores its registers and leaves a mark.  Storage (all of it, with parity), the commands each device saw, the load state and the result of the program (reference interpreter from the loaded PSW) are compared.  One load in six is preceded by one which ends with unit check (a system reset in between in half of these). Pressing LOAD again while a load is still in progress is not covered. Loaded PSWs have system mask, key and problem bit zero, and the machine is stopped with no interruption pending when the key is pressed: a first trial with other PSWs, a running or waiting program and pending interruptions passed 300 loads on the Model 50, but 40 of 300 on the Model 30 did not reach the end of the loaded program; whether that is the machine or the trial was not settled, so it is outside the claim.  **Known finding** `load-short-record` (2030 selector channel).  **Not covered.** On selector channels: separate channel end and device end (the 2050 tries the next command again and again while the device is busy and then loses the chain; on the 2030 devices are expected to hold the interface), unit check after fewer than 24 bytes (sometimes hangs); these were seen but not settled.  **Cost.** about 40 s on 8 cores.',
 'P31': '**Oracle.** `u2844_mon.cpp` writes 2314 volumes with random records on five cylinders, attaches them to a 2844, steps the microcode of the control unit and the drives twice for each channel step as the emulator does, and runs programs over `swchan.hpp`.  An independent model of the volumes gives for every command the status, the count, the bytes, the sense bytes (command reject, intervention required, seek check, invalid sequence, no record found, file protect, the number of the drive), the arm positions and, at the end, all bytes of the image files on those cylinders.  No record found is counted in index points as the control unit does; where the start of the search relative to the index decides, both outcomes are accepted.  An overrun at the first search of a program (the read gate comes on at a random place of the track) is retried up to three times, as a system would; more is a violation.  **Bounds.** 6 to 16 programs per history, 1 to 3 drives, five cylinders, all heads.  **Limits found in the emulation and kept out of the property** (the state machine takes a byte ahead of the microcode, and the layout used after a write of key and data has shorter gaps than the microcode writes): write counts shorter than the field end in overrun or leave service in up; written key or data fields of one or two bytes overrun; a read chained to a write of key and data misses the next address mark; a stacked control unit end is not presented again.  **Cost.** 900 histories (some 10,000 programs, 40,000 commands, 170,000 tracks), 60 s.',
 'P30': '**Oracle.** `u2415_mon.cpp` configures a 2415 with random SIMH tapes through the real configuration code, drives it with `swchan.hpp` and keeps each tape as a list of records and marks with a position; every data byte, status, sense byte and, at the end and at each unload, the image file are compared.  Rewinds go on while other drives are used; device end of a rewind may come by poll or with busy at a selection, once.  **Bounds.** 1 to 4 drives, 5 to 30 programs of 1 to 5 commands, records to 900 bytes.  What an older, longer recording left beyond the last record written is not read (the format keeps it, as the tape would).  Running off the end is only required to move no data.  **Cost.** 5,000 histories, 35 s.',
}
