# Which executions decide which property: harness, build flavour, arguments and case counts (quick, thorough).
LIBTARGETS = {
    'top': ['libtoplib.a'], 'device': ['libdevicelib.a'],
    'model2030': ['model2030_ros.h', 'libmodel2030lib.a'], 'model2050': ['model2050_ros.h', 'libmodel2050lib.a'],
    'model1442': ['libmodel1442lib.a'], 'model1443': ['libmodel1443lib.a'], 'model2415': ['libmodel2415lib.a'],
    'model2844': ['model2844_ros.h', 'libmodel2844lib.a'],
}
HARNESS = {
    'cpu2030': {'src': 'cpu_diff.cpp', 'defs': ['-DM2030'], 'libs': ['model2030', 'device', 'top'], 'flavours': ['fast', 'san']},
    'cpu2050': {'src': 'cpu_diff.cpp', 'defs': ['-DM2050'], 'libs': ['model2050', 'device', 'top'], 'flavours': ['fast', 'san']},
}
PROPS = {}

def cpu(pid, h, profs, need, letters='F', n=(60000, 1200000), san=6000):
    runs = []
    for p in profs:
        for l in letters:
            runs.append({'harness': h, 'flavour': 'fast', 'args': ['prof=%d' % p, l], 'count': (n[0] // len(profs) // len(letters), n[1] // len(profs) // len(letters))})
    PROPS[pid] = {'runs': runs, 'evals': 'programs', 'distinct': 'final_states', 'need': need,
        'rule': 'random System/360 programs, generated along the reference interpreter\'s path so that every outcome is architecturally defined; a case is non-trivial and distinct when the registers left in the save area by the last instruction differ from every other case',
        'assumptions': ['the reference interpreter states the architecture; results the architecture leaves unpredictable are not compared',
                        'execution time of an instruction is not judged beyond a generous cycle bound']}

cpu('P01', 'cpu2050', [0, 1, 2], {'programs': 20000, 'opcodes': 100})
cpu('P02', 'cpu2050', [3], {'programs': 20000, 'opcodes': 100})
cpu('P03', 'cpu2050', [4], {'programs': 20000, 'opcodes': 100})
cpu('P04', 'cpu2050', [6, 7, 8], {'programs': 20000, 'program_interruptions': 5000})
cpu('P05', 'cpu2030', [0, 1, 2], {'programs': 20000, 'opcodes': 90})
cpu('P06', 'cpu2030', [3], {'programs': 20000, 'opcodes': 90})
cpu('P07', 'cpu2030', [6, 7, 8], {'programs': 20000, 'program_interruptions': 5000})

HARNESS['event'] = {'src': 'event_mon.cpp', 'libs': ['top'], 'flavours': ['san']}
PROPS['P20'] = {'runs': [{'harness': 'event', 'flavour': 'san', 'count': (40000, 1500000)}], 'distinct': 'histories',
    'need': {'delivered': 100000, 'cancelled': 20000, 'issued_inside_callbacks': 5000},
    'rule': 'random histories of schedule / cancel / clock step over 5 devices and 3 routines, a third of the operations issued from inside callbacks; distinct when the history of operations and deliveries differs'}

HARNESS['conf'] = {'src': 'conf_mon.cpp', 'libs': ['top', 'device'], 'flavours': ['san']}
PROPS['P21'] = {'runs': [{'harness': 'conf', 'flavour': 'san', 'mode': 'conf', 'count': (12000, 400000)}], 'distinct': 'files',
    'need': {'definitions': 50000, 'hostile_lines': 30000, 'options_with_value': 20000},
    'rule': 'generated configuration files and single lines, well-formed and hostile; distinct by the text of the file'}
PROPS['P22'] = {'runs': [{'harness': 'conf', 'flavour': 'san', 'mode': 'log', 'count': (12000, 300000)}], 'distinct': 'logs',
    'need': {'messages_logged': 100000, 'lines_in_parts': 20000, 'late_parts': 5000, 'logfile_lines': 500, 'loglevel_refused': 300},
    'rule': 'random sequences of log calls of every class with random classes enabled and logging switched on and off; distinct by the sequence of messages and enabled classes'}
PROPS['P23'] = {'runs': [{'harness': 'conf', 'flavour': 'san', 'mode': 'dev', 'count': (30000, 800000)}], 'distinct': 'lists',
    'need': {'lookups': 300000, 'removed': 50000, 'disk_steps': 50000},
    'rule': 'random histories of attach, detach, look up, disk controller registration and stepping, start and shutdown; distinct by the sequence of operations and addresses'}
HARNESS['card'] = {'src': 'card_mon.cpp', 'libs': ['device', 'top'], 'flavours': ['asan']}
PROPS['P24'] = {'runs': [{'harness': 'card', 'flavour': 'asan', 'mode': 'xlat', 'count': (2, 2), 'shards': 1}], 'distinct': 'holes', 'evals': 'codes_compared',
    'need': {'codes_compared': 15000, 'holes': 4096},
    'rule': 'every entry of every table is compared with a code derived from the published rule; distinct by card code'}
PROPS['P25'] = {'runs': [{'harness': 'card', 'flavour': 'asan', 'mode': 'deck', 'count': (4000, 120000)}], 'distinct': 'histories',
    'need': {'cards_read': 50000, 'punched_cards': 50000, 'raw_cards': 5000, 'text_cards': 10000, 'eof_cards': 500},
    'rule': 'random histories of loading, reading, stacking, punching, blanking and emptying decks in every format; distinct by the sequence of operations and deck sizes'}
HARNESS['tape'] = {'src': 'tape_mon.cpp', 'libs': ['device', 'top'], 'flavours': ['san']}
PROPS['P26'] = {'runs': [{'harness': 'tape', 'flavour': 'san', 'mode': 'image', 'count': (6000, 200000)},
                         {'harness': 'tape', 'flavour': 'san', 'mode': 'hostile', 'count': (6000, 200000)}], 'distinct': 'histories',
    'need': {'records_written': 10000, 'records_read_forward': 10000, 'records_read_backward': 5000, 'long_records': 500, 'images_compared': 5000, 'hostile_images': 5000},
    'rule': 'random histories of writing, reading both ways, rewinding, detaching and attaching over images of each format; distinct by format, operations and positions'}

HARNESS['dasd'] = {'src': 'dasd_mon.cpp', 'libs': ['device', 'top'], 'flavours': ['san']}
PROPS['P27'] = {'runs': [{'harness': 'dasd', 'flavour': 'san', 'mode': 'volume', 'count': (600, 8000)},
                         {'harness': 'dasd', 'flavour': 'san', 'mode': 'stream', 'count': (6000, 150000)},
                         {'harness': 'dasd', 'flavour': 'san', 'mode': 'hostile', 'count': (5000, 100000)}], 'distinct': 'histories',
    'need': {'labels': 200, 'tracks_decoded': 500000, 'foreign_files': 60, 'revolutions': 15000, 'records_read': 40000, 'updates': 4000, 'records_formatted': 7000, 'resyncs': 2500, 'seeks': 9000, 'searches': 250, 'hostile_attached': 3000},
    'rule': 'random volumes formatted, attached and refused; random tracks read, searched, updated and formatted on four drive types; damaged images; distinct by drive type, operations and positions'}

for _m, _p, _n in (('2050', 'P08', (24000, 400000)), ('2030', 'P09', (14000, 200000))):
    HARNESS['chan' + _m] = {'src': 'chan_mon.cpp', 'defs': ['-DM' + _m], 'libs': ['model' + _m, 'device', 'top'], 'flavours': ['fast', 'san']}
    PROPS[_p] = {'runs': [{'harness': 'chan' + _m, 'flavour': 'fast', 'args': ['off=st'], 'count': _n},
                          {'harness': 'chan' + _m, 'flavour': 'san', 'args': ['off=st'], 'count': (_n[0] // 12, _n[1] // 12)}], 'distinct': 'histories',
        'need': {'operations': 30000, 'bytes_moved': 600000, 'reconnections': 300000, 'stacked_statuses': 2000, 'incorrect_length': 8000, 'protection': 400, 'pci_operations': 4000, 'calc_checked': 4000},
        'rule': 'random channel programs on 1 to 4 scripted devices of the multiplexor channel at a time, in one to three rounds, with the CPU waiting, computing or enabled throughout; distinct by the commands, chaining, length relations and ending statuses of the channel programs'}

HARNESS['u1442'] = {'src': 'u1442_mon.cpp', 'libs': ['model1442', 'device', 'top'], 'flavours': ['asan']}

PROPS['P28'] = {'runs': [{'harness': 'u1442', 'flavour': 'asan', 'count': (4000, 120000)}], 'distinct': 'histories',
    'need': {'bad_parity': 1000, 'resets': 400, 'commands': 40000, 'cards_read': 8000, 'punched': 8000, 'cards_stacked': 10000, 'statuses_stacked': 4000, 'unit_exceptions': 500, 'unit_checks': 3000, 'reconnections': 20000, 'stops': 10000, 'test_ios': 1000, 'absent_units': 1000},
    'rule': 'random histories of loading decks, operator feeds and channel programs on one or two 1442s of a software channel; distinct by commands, counts, ending statuses and loads'}

HARNESS['u1443'] = {'src': 'u1443_mon.cpp', 'libs': ['model1443', 'device', 'top'], 'flavours': ['san']}

PROPS['P29'] = {'runs': [{'harness': 'u1443', 'flavour': 'san', 'mode': 'paper', 'count': (4000, 200000)}, {'harness': 'u1443', 'flavour': 'san', 'mode': 'channel', 'count': (5000, 150000)}], 'distinct': 'histories',
    'need': {'bad_parity': 600, 'resets': 400, 'commands': 40000, 'lines': 200000, 'lines_compared': 180000, 'page_turns': 50000, 'skips': 100000, 'spaces': 100000, 'statuses_stacked': 4000, 'unit_exceptions': 500, 'unit_checks': 500, 'busy_tries': 2000, 'pending_tries': 800, 'reconnections': 20000, 'stops': 10000, 'test_ios': 1000, 'absent_units': 1000},
    'rule': 'random histories of channel programs on a 1443 with random forms of 3 to 66 lines, channel tapes, texts, counts and interrupted carriage motion; distinct by commands, counts and ending statuses'}

HARNESS['u2415'] = {'src': 'u2415_mon.cpp', 'libs': ['model2415', 'device', 'top'], 'flavours': ['san']}

PROPS['P30'] = {'runs': [{'harness': 'u2415', 'flavour': 'san', 'count': (5000, 90000)}], 'distinct': 'histories',
    'need': {'bad_parity': 2000, 'resets': 800, 'commands': 80000, 'programs': 60000, 'chained': 25000, 'images_compared': 6000, 'records_written': 10000, 'reads': 16000, 'reads_backward': 10000, 'controls': 40000, 'marks': 5000, 'rewinds': 5000, 'unloads': 700, 'busy': 2500, 'control_unit_busy': 4000, 'ran_off_the_tape': 4500, 'statuses_stacked': 6000, 'unit_checks': 18000, 'absent_units': 4000, 'rewind_ends_at_selection': 40},
    'rule': 'random histories of channel programs on one to four drives of a 2415 with random tapes, rewinds overlapping other work; distinct by commands and ending statuses'}

HARNESS['u2844'] = {'src': 'u2844_mon.cpp', 'libs': ['model2844', 'device', 'top'], 'flavours': ['san']}
PROPS['P31'] = {'runs': [{'harness': 'u2844', 'flavour': 'san', 'count': (900, 15000)}], 'distinct': 'histories',
    'need': {'resets': 100, 'commands': 10000, 'programs_done': 3000, 'chained': 8000, 'bytes_compared': 300000, 'searches_unequal': 2500, 'unit_checks': 700, 'unit_exceptions': 30, 'senses': 900, 'control_unit_ends': 300, 'tracks_compared': 40000, 'absent_drives': 120, 'other_addresses': 250, 'cmd_05': 200, 'cmd_0d': 60, 'cmd_1d': 700, 'cmd_15': 120, 'cmd_19': 120, 'cmd_29': 80, 'cmd_31': 900},
    'rule': 'random histories of channel programs on one to three 2314 drives behind a 2844 with random volumes; distinct by kind and length of the programs'}

HARNESS['oper30'] = {'src': 'oper_mon.cpp', 'defs': ['-DM2030'], 'libs': ['model2030', 'device', 'top'], 'flavours': ['fast', 'san']}
HARNESS['oper50'] = {'src': 'oper_mon.cpp', 'defs': ['-DM2050'], 'libs': ['model2050', 'device', 'top'], 'flavours': ['fast', 'san']}
PROPS['P10'] = {'runs': [{'harness': h, 'flavour': f, 'mode': 'panel', 'count': c} for h, f, c in (('oper50', 'fast', (15000, 60000)), ('oper30', 'fast', (8000, 30000)), ('oper50', 'san', (400, 4000)), ('oper30', 'san', (240, 2400)))], 'distinct': 'histories', 'evals': 'histories_compared',
    'need': {'histories_compared': 5000, 'interruptions': 20000, 'interrupt_keys': 10000, 'timer_ticks': 20000, 'timer_crossings': 300, 'stores': 5000, 'displays': 5000, 'stops': 2000},
    'rule': 'random programs disturbed by random histories of panel keys and clock pulses; distinct by the sequence of operations and the storage addresses used'}
PROPS['P11'] = {'runs': [{'harness': h, 'flavour': f, 'mode': 'ipl', 'count': c} for h, f, c in (('oper50', 'fast', (15000, 60000)), ('oper30', 'fast', (8000, 30000)), ('oper50', 'san', (400, 4000)), ('oper30', 'san', (240, 2400)))], 'distinct': 'histories', 'evals': 'loads_compared',
    'need': {'loads_compared': 5000, 'bytes_loaded': 300000, 'unit_checks': 500, 'channel_0': 1000, 'channel_1': 1000, 'channel_2': 1000},
    'rule': 'random records, loading channel programs, programs and device timings on every channel, from any earlier contents of storage; distinct by unit address and shape of the load'}
