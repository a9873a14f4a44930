"""Writes /verif/properties.jsonl (the source of the property list)."""
import json, os
C = 'sunspec/core/client.py'
M = 'sunspec/core/modbus/client.py'
B = 'sunspec/core/modbus/mbmap.py'
D = 'sunspec/core/device.py'
U = 'sunspec/core/util.py'
S = 'sunspec/core/suns.py'
X = 'sunspec/core/smdx.py'
T = 'sunspec/core/data.py'
K = 'scripts/suns.py'
P = []


def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files,
                          'mechanism': [{'name': n, 'where': w} for n, w in mech]}})


prop('C01', 'A register read returns what the addressed device holds, or raises',
     'A read of n registers from a device on TCP, on a serial line or in a register map either returns exactly 2n bytes, every register being a value the addressed device held at that address of the addressed table at some moment during the call, or it raises; it never returns short, misplaced, corrupted or stale data, or data of another device, table or request. '
     'Over a working link and inside the device\'s address range it returns, for every address, count and per-request limit.',
     ['inputs', 'schedules', 'fault_sequences', 'histories', 'configurations'],
     'every sequence of reads and writes on one or several devices (shared line, separate connections, connection kept open or not), every address/count/limit, every segmentation and delay of the replies and every sequence of lost, late, cut, corrupted, foreign or mismatching replies',
     'The tests read one fixed 2-register reply from a fake socket and a fake port that deliver it whole; no segmentation, splitting, fault, second request or second device is ever exercised.',
     [M, B, C],
     [('TCP request/response and reassembly', M + ': ModbusClientDeviceTCP._read/read'),
      ('RTU request/response, framing and CRC', M + ': ModbusClientRTU._read/read'),
      ('register map reads', B + ': ModbusMap.read, ModbusMapRegs.read')])

prop('C02', 'A successful register write is applied exactly, a failed one as a prefix',
     'A register write that returns has put exactly the given data into the given addresses of the addressed device, sent once, in ascending pieces; over a working link it returns, for every address, length and per-request limit. '
     'A write that raises has applied a leading part of its pieces, each piece wholly or not at all, and never repeats a piece or continues after a failed one; no write changes any other register, table or device.',
     ['inputs', 'schedules', 'fault_sequences', 'histories', 'configurations'],
     'every write address, length and limit, every interleaving with other devices on the line, every loss, delay, cut, corruption, refusal, reset or mismatching acknowledgement at any piece',
     'One 2-register write against a fake that records bytes; multi-piece writes, refused, lost or wrongly acknowledged pieces are never reached.',
     [M, B, C],
     [('TCP write splitting and acknowledgement', M + ': ModbusClientDeviceTCP._write/write'),
      ('RTU write splitting and acknowledgement', M + ': ModbusClientRTU._write/write'),
      ('register map writes', B + ': ModbusMap.write, ModbusMapRegs.write')])

prop('C03', 'Every request on the wire is well-formed, within limits and minimal',
     'Every byte sequence sent to a device is a sequence of valid Modbus requests (right unit, function, header length, byte counts and, on serial lines, checksum; reads of 1 to 125 and writes of 1 to 123 registers and no more than the configured per-request limit), and on a TCP connection a request is never sent while an earlier one is unanswered. '
     'The requests of one call cover its register range exactly once, in ascending order and in as few requests as the limits allow; a call that cannot be expressed (range beyond the address space, odd number of bytes) sends nothing and raises the documented error.',
     ['inputs', 'histories', 'fault_sequences', 'configurations'],
     'every address, count, data length, unit, function and per-request limit, over both transports, with and without a fault in the middle',
     'Two literal request strings are compared; the number of registers never exceeds 2, so neither limits nor splitting are reached.',
     [M],
     [('TCP request encoding', M + ': ModbusClientDeviceTCP._read/_write'),
      ('RTU request encoding, CRC', M + ': ModbusClientRTU._read/_write, computeCRC'),
      ('splitting', M + ': read/write loops, REQ_COUNT_MAX, max_count')])

prop('C04', 'Every communication failure surfaces as the documented error',
     'Whatever the network, port, device or map file does, a failed operation raises only documented errors: register-level calls the Modbus client error - its timeout variety when the device stayed silent for the timeout, its exception variety, carrying the code, when the device answered with a Modbus exception - and device-, model- and point-level calls the SunSpec client error. '
     'No failed or incomplete exchange is ever reported as success.',
     ['fault_sequences', 'histories', 'configurations'],
     'every kind of fault (refused, reset, closed or silent connections, errors of the port while opening, flushing, reading, writing or closing, malformed, foreign or exception replies with any code, unreadable map files) at every exchange of every operation',
     'No test injects a failure of any kind.',
     [M, C, B],
     [('TCP error translation', M + ': ModbusClientDeviceTCP'),
      ('RTU error translation', M + ': ModbusClientRTU'),
      ('translation to SunSpec errors', C + ': ClientDevice.read/write/scan/close, ClientModel.read_points')])

prop('C05', 'Waiting is bounded by the configured timeout, and not shorter',
     'No operation waits on a device that sends nothing for longer than the timeout configured for that device (or its documented default; one timeout more when a reply stops midway), and none runs forever whatever the device answers. '
     'No operation reports a timeout before that timeout has really passed without data, so a device answering just within its timeout is always heard, also when devices with different timeouts share a serial line.',
     ['schedules', 'fault_sequences', 'configurations'],
     'every timeout value and default, every delay pattern of the reply including gaps just below and just above the timeout, devices with different timeouts on a line, hostile lengths and garbage',
     'Fakes answer instantly and have no clock.',
     [M, C],
     [('TCP timeouts', M + ': ModbusClientDeviceTCP.connect/_recv'),
      ('RTU timeouts', M + ': ModbusClientRTU.open, ModbusClientDeviceRTU')])

prop('C06', 'A device object recovers by itself once the faults stop',
     'After any sequence of failed, timed out, refused or interrupted operations, once the device answers again and the line has gone quiet, the very next operation on the same object succeeds and returns current data, with no reconnect, reopen or new object needed.',
     ['fault_sequences', 'histories', 'schedules'],
     'every fault or user interrupt at every point of connect, request, reply and scan, on connections opened explicitly or per request, on serial lines, followed by fault-free operations',
     'No test performs an operation after a failed one.',
     [M, C],
     [('connection drop and reconnect', M + ': ModbusClientDeviceTCP.read/write/connect/disconnect'),
      ('input flush before a request', M + ': ModbusClientRTU._read/_write'),
      ('rescan', C + ': ClientDevice.scan')])

prop('C07', 'TCP connections are opened when needed and always released',
     'A request on an unconnected device opens one connection and releases it when the request ends, however it ends; a connection opened explicitly is used for all requests until it is closed or fails, and one opened by a scan is gone when the scan ends. '
     'A device never has more than one open connection, and none is left open after close, disconnect, a failed or interrupted connect or request, or a failed construction.',
     ['fault_sequences', 'histories'],
     'every sequence of connect, request, scan, disconnect, close and construct, with a failure or user interrupt at any blocking point',
     'The fake socket is injected already connected; connection handling is never executed.',
     [M, C],
     [('connect/disconnect', M + ': ModbusClientDeviceTCP.connect/disconnect/close'),
      ('per-request connection', M + ': ModbusClientDeviceTCP.read/write'),
      ('scan connection', C + ': ClientDevice.scan, SunSpecClientDevice.__init__')])

prop('C08', 'Devices on one serial port share one correctly configured handle',
     'All open devices on a serial port use a single open handle configured with the requested speed and parity (9600, none by default), 8 data bits and 1 stop bit; asking for another speed or parity while it is open raises and disturbs nothing. '
     'The handle stays open and usable while any of its devices is open and is closed with the last one, whatever the order and repetition of opens and closes and whatever opening or closing errors occur.',
     ['histories', 'fault_sequences', 'configurations'],
     'every sequence of opening and closing (also twice) of devices with any unit ids - equal ones included -, speeds and parities on several ports, with errors while opening or closing',
     'One device on one fake port, never closed.',
     [M, C],
     [('port registry', M + ': modbus_rtu_client, modbus_rtu_client_remove'),
      ('reference counting', M + ': ModbusClientRTU.add_device/remove_device/close')])

prop('C09', 'A scan finds exactly the models the device has, or raises',
     'A scan that returns lists exactly the models present in the device - ids, lengths, addresses and order, any number of instances, at whichever supported base address - and exposes all of them by name; a model whose definition is missing or does not fit is listed with its error and hides no other. '
     'A scan of a device that has no SunSpec map at a supported base address raises, as does any scan that fails; it can be repeated, repeating a scan gives the same list without duplicates, and every scan ends.',
     ['inputs', 'histories', 'fault_sequences', 'configurations'],
     'every layout of models (unknown ids, repeated models, repeating blocks, legacy lengths, lengths that do not fit), base address, end marker, transport, and failure during any request of the scan',
     'The tests that scan need model definitions that are not present; even those use one fixed map and no failure.',
     [C, D, M],
     [('base address probing and model walk', C + ': ClientDevice.scan'),
      ('model layout', D + ': Model.load, Device.add_model'),
      ('model attributes', C + ': SunSpecClientDevice.__init__')])

prop('C10', 'Scan pacing and cancellation are honoured',
     'With a scan delay set, at least that time passes between connecting and the first request, between probes of successive base addresses and between the requests for successive models; the progress function is called once per model, in device order, naming the model. '
     'When it declines, the scan stops with the SunSpec client error, sends nothing more and releases its connection.',
     ['schedules', 'configurations', 'inputs'],
     'every delay, layout, transport and point of cancellation, also when the progress function raises',
     'No test uses a delay or a progress function.',
     [C],
     [('delay and progress', C + ': ClientDevice.scan')])

prop('C11', 'Reading a model yields the device values, all of them or none',
     'After a successful read of a model every point holds the value the device has at that point\'s registers, decoded by the point\'s type and scale factor, and no value when the device marks it unimplemented; this includes every repeating block, every instance of a model and models of any length. '
     'A read that fails raises and leaves all point values as they were.',
     ['inputs', 'histories', 'fault_sequences', 'configurations'],
     'every model layout, type, scale factor (local, in the fixed block, constant), register contents including the unimplemented markers and their neighbours, device histories, and failure of any request of the read',
     'The decoding tests feed single values to conversion functions; the client tests that read models need definitions that are not present.',
     [C, D, S, U],
     [('model read', C + ': ClientModel.read_points'),
      ('layout, read blocks', D + ': Model.load'),
      ('types', S + ': suns_point_type_info; ' + U + ': data_to_*')])

prop('C12', 'A point is never torn between two requests',
     'The registers of one point are always read by one request and written by one request (for points that fit in a request), so that a value mixing two device states is never returned and a half-written point never reaches the device; a model of up to 125 registers is read as one consistent snapshot.',
     ['schedules', 'inputs', 'histories', 'fault_sequences'],
     'every model layout and length, every set of modified points, with the device changing its registers between any two requests and any request failing',
     'No test model is longer than one request or changes while it is read.',
     [C, D, M],
     [('read blocks', D + ': Model.load, MAX_READ_COUNT'),
      ('write runs', C + ': ClientModel.write_points')])

prop('C13', 'Writing a model sends exactly the modified points',
     'Writing a model sends every point modified since it was last read or written, correctly encoded and scaled, to its own registers, and nothing else; with nothing modified it sends nothing. '
     'Reading back returns the values set, and writing one point writes just that point.',
     ['inputs', 'histories', 'configurations'],
     'every layout, set and order of modified points in fixed and repeating blocks and instances, values of every type and scale factor, interleaved with reads, writes and device changes',
     'No test that runs here writes a point through a model.',
     [C, D, S, U],
     [('model write', C + ': ClientModel.write_points, ClientPoint.write'),
      ('modified flag, scaling', D + ': Point.value_setter'),
      ('encoders', U + ': *_to_data')])

prop('C14', 'Modified points stay pending until the device acknowledged them',
     'When a write of a model fails, every modified point the device has not acknowledged stays modified with its value, and a later successful write sends it; points acknowledged before the failure are not sent again. '
     'After the successful write the device holds the latest values set and nothing is pending.',
     ['fault_sequences', 'histories'],
     'every set of modified points spanning one or several requests, every sequence of failed attempts (refused, lost, timed out, interrupted at any request), with values changed in between',
     'No test lets a write fail.',
     [C],
     [('pending points', C + ': ClientModel.write_points, ClientPoint.write')])

prop('C15', 'Tracing changes nothing and shows the bytes exchanged',
     'With tracing on, every operation has the same result, error and bytes on the wire as with tracing off; each request sent and each response received in full appears in the trace, in order, byte for byte, with its target and address.',
     ['histories', 'fault_sequences', 'configurations'],
     'every workload, transport and fault sequence, run twice from the same seed with tracing on and off, at register level and through the device classes',
     'No test enables tracing.',
     [M, C],
     [('trace output', M + ': trace_func in _read/_write of both transports'),
      ('trace switch', C + ': ClientDevice.__init__')])

prop('C16', 'Definition and map file faults stay contained and heal',
     'A missing, unreadable, truncated or invalid model definition affects only the models that need it: all other models of the device, and devices opened earlier or later, keep all their points; once the file is readable a new scan loads it. '
     'Definitions are found in the first place of the search path that has them, directories and zip archives alike; a search path set for a while ends with it, however it ended. A map file that cannot be read raises the documented error without leaving anything half loaded.',
     ['fault_sequences', 'histories', 'configurations'],
     'every search path of directories and archives and every missing, unreadable, truncated, malformed or changed file at any scan of a sequence of devices',
     'The definitions directory is empty here; no test makes a file unreadable or uses an archive or a second path.',
     [D, U, C, B],
     [('definition loading', D + ': model_type_get, ModelType.from_smdx'),
      ('path list', U + ': PathList.read'),
      ('model classes', C + ': model_class_get, ClientDevice.scan')])

prop('C17', 'TLS never talks Modbus to a server that fails verification',
     'With TLS enabled no Modbus byte is sent before the handshake has verified the server\'s certificate against the configured authority and the device\'s address; a failed verification, handshake or certificate file raises the documented error and releases the connection. '
     'Only with the skip-verification option is an unverified server accepted, plain connections are never used in place of TLS, and the configured client certificate is presented; without one, TLS works with servers that do not ask for one.',
     ['configurations', 'fault_sequences', 'histories'],
     'every combination of authority, name, expiry, client certificate requirement, skip option, impostor appearing between connections, and handshake failure or stall',
     'No test uses TLS.',
     [M, C],
     [('TLS context and wrapping', M + ': ModbusClientDeviceTCP.connect'),
      ('options', C + ': ClientDevice.__init__')])

prop('C18', 'Devices used from different threads do not disturb each other',
     'Devices on separate connections, each used by one thread, behave exactly as if each were used alone: same models, values, names, errors and wire traffic, for every interleaving of their scans, reads, writes and closes.',
     ['schedules', 'histories'],
     'every interleaving, down to single source lines, of two or three threads constructing, scanning, reading, writing and closing their own devices, sharing definitions and model ids',
     'No test uses threads.',
     [C, D, M],
     [('shared definition cache', D + ': model_type_get, model_types'),
      ('generated classes', C + ': model_class_get')])

prop('C19', 'A device behaves the same over TCP, serial line and register map',
     'The same device contents and the same history of scans, reads, writes and point accesses give the same models, values, failures and final device contents over TCP, over a serial line and from a map file.',
     ['histories', 'inputs', 'configurations'],
     'every device layout and operation history, per-request limit, segmentation and timing, executed once per transport and compared step by step',
     'Each transport has separate tests with separate fixed data.',
     [M, B, C],
     [('three device classes', M + ': ModbusClientDeviceTCP, ModbusClientDeviceRTU, ModbusClientDeviceMapped'),
      ('register map', B + ': ModbusMap')])

prop('C20', 'The suns script prints the device or one error line',
     'The command line script, over every transport, either prints a UTC timestamp and every implemented point of every model with the value the device holds and exits with status 0, or prints a line starting with "Error:" (or one naming the bad option) and exits with a non-zero status; it never ends in a traceback, and never prints a wrong value.',
     ['inputs', 'fault_sequences', 'configurations'],
     'every device layout including unknown and unloadable models, every transport and fault during scan or read',
     'No test runs the script.',
     [K, C],
     [('script', K)])

prop('C21', 'Data records carry the right UTC instant and survive being passed on',
     'A record stamped by default carries the UTC time of the system clock at that moment, and one stamped with a given instant carries that instant, whatever the local time zone, clock jumps or order of calls; serialising a record, any number of times, and parsing it again keeps all devices, models, points and timestamps. Records of other loggers are passed on as they came. A document that is cut off is refused, and one that is no such record is refused with SunSpecDataError.',
     ['schedules', 'histories', 'configurations'],
     'every time zone, clock value, forward and backward jump between calls, and sequence of building, stamping, serialising and parsing',
     'One record without timestamps is parsed and compared.',
     [T],
     [('timestamps', T + ': DeviceData.timestamp_add'),
      ('serialisation', T + ': to_xml/from_xml')])

prop('C22', 'Point value conversions invert each other',
     'For every point type, encoding a representable value and decoding the result gives the value back, and decoding and re-encoding register data of an implemented point gives the data back.',
     ['inputs'],
     'every type and every representable value',
     'Tests convert a handful of values.',
     [U, S], [('converters', U + ': data_to_*, *_to_data')])

prop('C23', 'A device saved as a PICS document comes back as it was',
     'A device written to a PICS document and loaded again, by the same process or by one started later, is the device that was written: the same models, lengths, blocks and points, the same access and implementation state, the same value of every implemented point in every block (when all repeating blocks are written), and not_equal() of equal devices returns False. Documents of other tools, in whatever encoding they declare, mean what they say: points marked or coded as not implemented have no value, a repeating block without an index applies to all, one with an index to that one. Saving does not change the device, and a torn, malformed, missing or unreadable document raises SunSpecError, never another error and never a partial device in silence.',
     ['inputs', 'histories', 'fault_sequences', 'crash_points'],
     'every device layout and contents, read from a device or loaded before; every point at which a process ends while writing; damaged, missing and unreadable documents; documents of other tools',
     'One stored document is compared where definitions are present.',
     [D, 'sunspec/core/pics.py'], [('PICS', D + ': Device/Model/Block/Point from_pics, to_pics, not_equal')])

prop('C24', 'A register map saved as a document comes back as it was',
     'A register map written to its document form and loaded again, by the same process or by one started later, is the same map: base address, function, registers, access and contents, including every write that returned before and nothing of writes that failed; not_equal() of equal maps returns False. Documents of other tools, in whatever encoding they declare, give exactly the registers they list. A torn, malformed, missing or unreadable document raises ModbusMapError (ModbusClientError when opened as a device) and nothing else.',
     ['inputs', 'histories', 'fault_sequences', 'crash_points'],
     'every map built, loaded, grown and written in any order; every point at which a process ends while writing; damaged, missing and unreadable documents',
     'One stored map is compared.',
     [B], [('mbmap', B + ': from_xml, from_hex, to_xml, regs_add, write, not_equal')])

prop('C25', 'Every model and point carries what its definition says',
     'After a scan every loaded model exposes the id, length, name, label, description and notes its definition gives, and every point of it, in the order of the definition, the type, offset, length, access, mandatory state, units, scale factor, label, description, notes and symbols (ids, values and texts) the definition gives for it. '
     'This holds wherever the definition was found (directory, archive, default directory), whatever encoding the file declares and in whatever order its parts stand, for points and symbols of equal name in different blocks, points or models, whatever else was loaded or failed to load before or afterwards, and for as long as the device object is used.',
     ['histories', 'configurations', 'fault_sequences', 'inputs'],
     'every definition, place, encoding and order of parts, and every sequence of scans, of file changes and of faults around it',
     'One definition with two symbols is compared, where definitions are present.',
     [D, 'sunspec/core/smdx.py', U, C],
     [('definitions', D + ': ModelType, BlockType, PointType, Symbol from_smdx, model_type_get'),
      ('path list', U + ': PathList.read'),
      ('client model', C + ': ClientDevice.scan')])

prop('C26', 'Comparing devices, models and definitions tells exactly whether they differ',
     'not_equal() of two devices, models, blocks, points, model types, block types or point types returns a reason (a non-empty string) when they differ in what they hold - the models, blocks and points, the values and scale factors read from the device or set, or any attribute their definitions gave them (types, offsets, lengths, access, mandatory state, units, scale factors, labels, descriptions, notes, symbols), one of them not having an attribute the other has included - and False when they do not. '
     'The answer is the same in both directions, never an exception, and does not depend on when, where from or in what order the two were scanned, read, loaded or written, nor on definitions that changed or failures that happened in between.',
     ['histories', 'inputs', 'fault_sequences', 'configurations'],
     'every pair of devices reached by sequences of scans, reads, sets, writes, changes of registers and of definitions, with faults in between; every part of them',
     'Only equal ones, made alike by hand, are compared.',
     [D, 'sunspec/core/pics.py', C],
     [('comparison', D + ': Device, Model, Block, Point, ModelType, BlockType, PointType not_equal')])

prop('C27', 'The scripting objects present the device by name and in text as it is',
     'A SunSpecClientDevice lists the names of its models in device order; each name, as attribute or item, is the model, or with several instances of it a list of them from index 1 in device order. '
     'Each model and each repeating block (numbered from 1, reachable as repeating and by the name the definition gives the block) lists its points in the order of the definition, and every point reads the same as attribute and as item and as the point itself. '
     'The text of a model is its name and id followed by exactly the points that have a value, in order, each with id and value, then each repeating block by name and index likewise; the text of a device is that of all its models, every instance included. '
     'This holds after every scan, read, set, write, failure and interruption, and asking for the text of any part of a device never raises.',
     ['histories', 'inputs', 'fault_sequences', 'configurations'],
     'every layout of models, instances and blocks, all values and unimplemented points, and every sequence of operations and faults before the question',
     'No test uses the text of a device, model or block, or a device with several instances of a model.',
     [C, D],
     [('scripting objects', C + ': SunSpecClientDevice, SunSpecClientModelBase, SunSpecClientBlockBase, model_class_get'),
      ('texts', D + ': Device, Block, Point, Model, ModelType, BlockType, PointType __str__')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
