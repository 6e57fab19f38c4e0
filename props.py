"""Which units and search drivers decide each property."""
PROPS = {}
NAT = {}
def prop(id, title, units, native=(), level='proof', nsec=8, assumptions=(), note=''):
    PROPS[id] = dict(title=title, units=list(units), native=list(native), level=level, nsec=nsec,
                     assumptions=list(assumptions), note=note)
NAT['ctl'] = dict(src='nat/ctl.c')
BUFS = ['ctl.load_be32', 'ctl.load_bytes', 'ctl.store_be32', 'ctl.store_bytes']
MEM = 'heap allocation succeeds (the code asserts it)'
prop('P01', 'Control frame decoding accepts exactly the specified grammar', BUFS[:2] + ['ctl.decode', 'ctl.reset'],
     [('ctl', 'decode')], assumptions=[MEM])
prop('P02', 'Control frame encoding is exact and in bounds', BUFS[2:] + ['ctl.size', 'ctl.encode', 'ctl.mono'],
     [('ctl', 'encode')], assumptions=[MEM])
prop('P03', 'Encoded control frames decode to what was encoded', BUFS + ['ctl.decode', 'ctl.size', 'ctl.encode', 'ctl.mono', 'ctl.roundtrip'],
     [('ctl', 'roundtrip')], assumptions=[MEM])
prop('P04', 'Content type matching and control frame accessors are exact', ['ctl.match', 'ctl.acc', 'ctl.addf', 'ctl.reset', 'ctl.destroy', 'ctl.init'],
     [('ctl', 'match')], assumptions=[MEM])
NAT['rw'] = dict(src='nat/rw.c')
RWU = ['rw.open', 'rw.close', 'rw.read', 'rw.write', 'rw.destroy']
RWC = ['rw.rcf', 'rw.rc', 'rw.wcf', 'rw.wc']
OPS = 'transport methods return one of the library result codes and do not touch library state'
prop('P05', 'The reader delivers exactly the data frames that were sent', ['rd.read', 'own.rd.init', 'own.rd.opts', 'rw.read', 'rw.rcf', 'ctl.decode'], [('rw', 'read')], assumptions=[MEM, OPS])
prop('P06', 'The reader follows the opening and closing handshake', ['rd.open', 'rd.close', 'rd.ctl', 'ctl.match', 'ctl.addf'] + RWC + ['rw.open', 'rw.close'], [('rw', 'read')], assumptions=[MEM, OPS])
prop('P07', 'The writer emits every frame once, length-prefixed and in order', ['wr.batch', 'wr.write', 'wr.writev', 'rw.write'], [('rw', 'write')], assumptions=[MEM, OPS])
prop('P08', 'The writer follows the opening handshake', ['wr.open', 'wr.ctl', 'ctl.match', 'ctl.addf'] + RWC + ['rw.open', 'rw.close'], [('rw', 'write')], assumptions=[MEM, OPS])
prop('P09', 'A writer ends its stream with exactly one STOP and waits for FINISH', ['wr.close', 'rw.rc', 'rw.wc', 'rw.wcf', 'rw.rcf', 'rw.close'], [('rw', 'write')], assumptions=[MEM, OPS])
prop('P10', 'A transport is used only while open and is closed exactly once', RWU + RWC, [('rw', 'gate'), ('rw', 'write')], assumptions=[MEM, OPS])
NAT['sock'] = dict(src='nat/sock.c', link=['-Wl,--wrap=' + x for x in ('socket', 'fcntl', 'connect', 'sendmsg', 'send', 'read', 'recv', 'close')])
prop('P11', 'Socket transports move every byte through any partial transfer', ['sock.%s.%s' % (t, o) for t in ('unix', 'tcp') for o in ('write', 'read', 'open', 'close', 'init')] + ['sock.mono'],
     [('sock', 'all')], assumptions=[MEM, 'the kernel: sendmsg takes a prefix of what is offered or fails, read delivers a prefix of what is asked or fails; lists of at most 256 elements of less than 4 GiB each (the writer passes at most that many)'])
NAT['file'] = dict(src='nat/file.c', link=['-Wl,--wrap=fopen'])
prop('P12', 'The file transport loses, adds and changes no byte', ['file.open', 'file.close', 'file.read', 'file.write', 'file.destroy', 'file.init'], [('file', 'all')], assumptions=[MEM, 'stdio: fread and fwrite of one item transfer it whole or say why not; fclose reports unwritten data'])
NAT['queue'] = dict(src='nat/queue.c')
prop('P13', 'The lock-free queue passes every item once, whole and in order', ['q.mb.insert', 'q.mb.remove', 'q.mb.init', 'q.mb.slots'], [('queue', 'mb')],
     assumptions=[MEM, 'one producer and one consumer at a time; x86-TSO or stronger memory, shared indices are read and written atomically', 'item size 32 bytes (the library entry), capacity times item size below 4 GiB'])
prop('P14', 'The locked queue passes every item once, whole and in order', ['q.mutex.insert', 'q.mutex.remove', 'q.mutex.init', 'q.mutex.slots'], [('queue', 'mutex')],
     assumptions=[MEM, 'pthread mutexes exclude each other', 'item size 32 bytes (the library entry), capacity times item size below 4 GiB'])
NAT['iothr'] = dict(src='nat/iothr.c', link=['-Wl,--wrap=clock_gettime,--wrap=pthread_cond_timedwait'])
IOA = [MEM, 'queue and writer behave as stated in P07, P09, P13 and P14; pthread primitives as POSIX says']
prop('P15', 'Submit accepts a payload whole or refuses it and leaves it alone', ['io.free', 'io.submit', 'io.getq', 'q.mb.insert', 'q.mutex.insert'], [('iothr', 'all')], assumptions=IOA)
prop('P16', 'Every accepted payload is freed exactly once, after it was written', ['io.flush', 'io.entry', 'io.queues', 'io.destroy', 'q.mb.remove', 'q.mutex.remove'], [('iothr', 'all')], assumptions=IOA)
prop('P17', 'The I/O thread opens, reopens, drains and closes as documented', ['io.clock', 'io.thr', 'io.open', 'io.close', 'io.flush', 'io.queues', 'io.init', 'io.destroy'], [('iothr', 'all')], assumptions=IOA)
prop('P18', 'I/O thread options are accepted exactly in their documented ranges', ['io.opts', 'io.init'], [('iothr', 'opts', 3), ('iothr', 'all')], assumptions=IOA)
prop('P19', 'Every input queue is handed out exactly once', ['io.getq', 'io.init'], [('iothr', 'hand'), ('iothr', 'all')], assumptions=IOA)
NAT['capture'] = dict(src='nat/capture.c', extra=['R:libmy/argv.c'], link=['-levent', '-Wl,--wrap=time,--wrap=bufferevent_socket_new,--wrap=bufferevent_free,--wrap=fwrite,--wrap=fwrite_unlocked,--wrap=fclose,--wrap=fflush,--wrap=fflush_unlocked,--wrap=open,--wrap=exit,--wrap=event_base_dispatch,--wrap=isatty,--wrap=sigaction,--wrap=fdopen,--wrap=evconnlistener_new_bind'])
CPA = [MEM, 'libevent and stdio as documented; the event loop calls one callback at a time', 'log output (stderr) is not judged']
prop('P20', 'The capture program records every data frame exactly once, byte for byte', ['cap.can', 'cap.data', 'cap.cbread', 'cap.load', 'cap.args'], [('capture', 'frames')], assumptions=CPA)
prop('P21', 'The capture program admits only negotiated streams, within its limit', ['cap.ctl', 'cap.load', 'cap.cbread', 'cap.close', 'cap.write', 'cap.accept', 'cap.args', 'ctl.match', 'ctl.decode'], [('capture', 'proto')], assumptions=CPA)
prop('P22', 'Every capture output file is one complete stream, or the failure is reported', ['cap.start', 'cap.stop', 'cap.openf', 'cap.closef', 'cap.rot', 'cap.maybe', 'cap.fname', 'cap.sig', 'cap.sigs', 'cap.main', 'cap.evloop', 'cap.unix', 'cap.tcp', 'cap.data'], [('capture', 'out')], assumptions=CPA)
NAT['dump'] = dict(src='nat/dump.c')
NAT['replay'] = dict(src='nat/replay.c', extra=['R:libmy/argv.c'])
TOOLA = [MEM, 'the library behaves as stated in P01-P12', 'text on stderr is not judged']
prop('P23', 'The dump program prints and copies every frame, or says that it failed', ['dump.main', 'dump.ps', 'file.read', 'file.close', 'rd.ctl'], [('dump', 'all')], assumptions=TOOLA + ['the C locale'])
prop('P24', 'The replay program sends every matching frame in order, or says it failed', ['rep.file', 'rep.init', 'rep.main', 'rep.args', 'ctl.match'], [('replay', 'all')], assumptions=TOOLA)

prop('P25', 'Library objects own copies of their inputs and free everything once', ['own.%s.%s' % (t, o) for t in ('rd', 'wr') for o in ('init', 'destroy', 'opts')] + ['sock.%s.%s' % (t, o) for t in ('unix', 'tcp') for o in ('init', 'destroy')] + ['file.init', 'file.destroy', 'rw.destroy', 'ctl.destroy', 'io.init', 'io.destroy'],
     [('rw', 'own'), ('sock', 'own'), ('file', 'own'), ('iothr', 'all')], assumptions=[MEM])

NAT['vec'] = dict(src='nat/vec.c')
prop('P26', 'Growable arrays keep every element and never write past their room', ['vec.%s.%s' % (t, o) for t in ('ubuf', 'fs_bufvec') for o in ('add', 'reserve', 'append', 'simple', 'life', 'extend', 'reinit')] + ['vec.ubuf.%s' % o for o in ('cstr', 'fmt', 'text')],
     [('vec', 'all')], assumptions=[MEM, 'at most 2^33 elements'])
NAT['argv'] = dict(src='nat/argv.c', extra=['R:libmy/argv.c'], link=['-fno-sanitize=signed-integer-overflow'])
prop('P27', 'Command lines take effect as documented, or are refused', ['arg.' + x for x in ('enqueue', 'or', 'xor', 'mand', 'pre', 'value', 'size', 'isnum', 'doarg', 'top', 'copy', 'file', 'cleanup', 'radix', 'vec', 'env', 'global', 'proc', 'list', 'list.rest', 'list.two')],
     [('argv', 'all')], level='other', note='Mixed: the units at level proved are discharged for all tables of up to 12 entries and all values of the state; the units at level bounded (see coverage.units, with their bounds) are discharged for the stated sizes only and not counted in obligations/discharged; the driver runs the real parser on random tables and command lines against a model.', assumptions=[MEM, 'how one list of arguments is taken apart is checked for one or two short arguments only, and searched beyond (random tables and command lines against a model); the text of the environment variable is searched, not proved'])
