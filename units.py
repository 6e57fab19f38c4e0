from vf import Unit, Loop
U = {}
def add(u): U[u.name] = u

for fn in ('load_be32', 'store_be32', 'load_bytes', 'store_bytes'):
    add(Unit('ctl.' + fn, 'units/ctl_load.c', entry='h_' + fn, enforce='fs_%s/%s_c' % (fn, fn), covers=2,
             functions=['fs_' + fn], trusted=['memmove (libc contract, tracked byte)'],
             what='fs_%s reads/writes exactly the stated bytes, in bounds, for every buffer of up to 600 bytes' % fn))
add(Unit('ctl.decode', 'units/ctl_decode.c', enforce='fstrm_control_decode/decode_c',
         replace=['fstrm_control_reset/reset_c'], covers=4,
         loops=[Loop('fstrm/control.c', 'fstrm_control_decode', 'while (len > 0)', '''
           __CPROVER_assigns(buf, len, val, c->content_types->_n, gelem, gbyte, gn, gpos, gklen, gkoff, gmalloc, gmalloc_live)
           __CPROVER_loop_invariant(gpos <= L && gpos >= 4 && L <= 540 && buf == w + gpos && len == L - gpos)
           __CPROVER_loop_invariant(c->content_types->_n == gn && gn <= gpos / 8 && gmalloc_live == 0)
           __CPROVER_loop_invariant(IMPL(gk < gn, gelem.len == gklen && gklen <= 256 && gkoff + gklen <= gpos && gelem.data == blobk))
           __CPROVER_loop_invariant(IMPL(gk < gn && gj < gklen, gbyte == byte_(gkoff + gj)))''')],
         functions=['fstrm_control_decode'], trusted=['malloc succeeds'],
         bounded=dict(unwind=7), unwindset=[],
         what='accepts exactly the grammar; type, fields, lengths and bytes exact; nothing leaked'))

HDR_CT = 'for (size_t i = 0; i < fs_bufvec_size(c->content_types); i++)'
add(Unit('ctl.size', 'units/ctl_encode.c', entry='h_size', enforce='fstrm_control_encoded_size/encoded_size_c', covers=3,
         loops=[Loop('fstrm/control.c', 'fstrm_control_encoded_size', HDR_CT, '''
           __CPROVER_assigns(i, len, g_long)
           __CPROVER_loop_invariant(i <= c->content_types->_n && !g_long && len == ((flags & 1) ? 12 : 4) + S(i) && S(i) <= i * 264)
           __CPROVER_loop_invariant(IMPL(i > 0, c->type != 2 && c->type != 3 && c->type != 5))
           __CPROVER_loop_invariant(IMPL(gk < i, elen(gk) <= 256 && S(gk) + 8 + elen(gk) <= S(i)))''')],
         functions=['fstrm_control_encoded_size'], bounded=dict(unwind=6),
         what='exact encoded size; refused only when a type is over 256 bytes or the frame over the limit'))
add(Unit('ctl.encode', 'units/ctl_encode.c', entry='h_encode', enforce='fstrm_control_encode/encode_c', covers=2,
         replace=['fstrm_control_encoded_size/vf_encoded_size'],
         loops=[Loop('fstrm/control.c', 'fstrm_control_encode', HDR_CT, '''
           __CPROVER_assigns(i, len, buf, gpos, g_w0, g_w4, g_wt, g_k0, g_k4, g_kdata, g_klen, g_kpos, g_kdone, g_long)
           __CPROVER_loop_invariant(i <= c->content_types->_n && gpos == gbase + S(i) && S(i) <= 512 && buf == out + gpos && len == g_size - gpos && gpos <= g_size && g_size <= gcap)
           __CPROVER_loop_invariant(IMPL(i > 0, c->type != 2 && c->type != 3 && c->type != 5))
           __CPROVER_loop_invariant(IMPL(gk < i, g_k0 == 1 && g_k4 == elen(gk) && g_kdone && g_kdata == blobk && g_klen == elen(gk) && g_kpos == gbase + S(gk) + 8))
           __CPROVER_loop_invariant(IMPL((flags & 1), g_w0 == 0 && g_w4 == g_size - 8) && g_wt == c->type)''')],
         functions=['fstrm_control_encode'], bounded=dict(unwind=6),
         what='writes exactly the canonical frame, in bounds'))

add(Unit('ctl.mono', 'units/ctl_encode.c', entry='h_mono', covers=1, loops=True, functions=[], bounded=dict(unwind=6),
         what='lemma: partial sums of encoded field sizes are monotone'))
M = 'units/ctl_misc.c'
LR = [Loop('fstrm/control.c', 'fstrm_control_reset', HDR_CT, '''
           __CPROVER_assigns(i, nfree_el, nfree_k, gcur)
           __CPROVER_loop_invariant(i <= c->content_types->_n && nfree_el == i && nfree_k == (gk < i ? 1 : 0))''')]
add(Unit('ctl.reset', M, entry='h_reset', enforce='fstrm_control_reset/reset_c', covers=2, loops=LR,
         functions=['fstrm_control_reset'], bounded=dict(unwind=6), what='frees every content type exactly once and empties the frame'))
add(Unit('ctl.destroy', M, entry='h_destroy', replace=['fstrm_control_reset/reset_full_c'], covers=1,
         functions=['fstrm_control_destroy'], bounded=dict(unwind=6), what='frees everything exactly once'))
add(Unit('ctl.init', M, entry='h_init', covers=2, unwind=40, functions=['fstrm_control_init', 'fstrm_control_type_to_str', 'fstrm_control_field_type_to_str'], bounded=dict(unwind=40), what='a new frame is empty; every type has a name'))
add(Unit('ctl.addf', M, entry='h_addf', covers=2, functions=['fstrm_control_add_field_content_type'], bounded=dict(unwind=6),
         what='adds a private copy, or refuses an over-long type and changes nothing'))
add(Unit('ctl.match', M, entry='h_match', enforce='fstrm_control_match_field_content_type/match_c', covers=3,
         loops=[Loop('fstrm/control.c', 'fstrm_control_match_field_content_type', 'for (size_t idx = 0; idx < n_ctype; idx++)', '''
           __CPROVER_assigns(idx, gwit, gcur, res)
           __CPROVER_loop_invariant(idx <= n_ctype && n_ctype == nmatchable(c) && !gwit && IMPL(gk < idx, !(elen(gk) == len_match && eqm(gk))))''')],
         functions=['fstrm_control_match_field_content_type'], bounded=dict(unwind=6), what='matches exactly when the set is empty or contains the type'))
add(Unit('ctl.acc', M, entry='h_acc', covers=2, functions=['fstrm_control_get_type', 'fstrm_control_set_type',
         'fstrm_control_get_num_field_content_type', 'fstrm_control_get_field_content_type'], bounded=dict(unwind=6), what='accessors are exact'))
add(Unit('ctl.roundtrip', M, entry='h_roundtrip', covers=1, loops=True, bounded=dict(unwind=6),
         what='lemma: a frame laid out as encode_c says is read back by the decode_c recogniser field by field'))
RD = 'units/reader.c'
RCT = 'for (size_t i = 0; i < fs_bufvec_size(r->content_types); i++)'
TR_T = 'transport (fstrm_rdwr_read) by contract: delivers exactly the requested bytes or fails'
add(Unit('rd.read', RD, entry='h_read', enforce='fstrm_reader_read/read_c', replace=['fstrm_reader_open/open_c'], covers=4,
         loops=[Loop('fstrm/reader.c', 'fstrm__reader_next_data', 'for (;;)', '''
           __CPROVER_assigns(res, *data, *len_data, gpos, gframe, gcap, gdata, gdata_off, gdata_len, gstop, gctl, gfail, ninit, r->state, r->control_tmp, r->control_stop, UB._n, UB._p, UB._v)
           __CPROVER_loop_invariant(gpos == gframe && !gdata && !gstop && !gfail && *data == NULL && r->state == fstrm_reader_state_opened)
           __CPROVER_loop_invariant(r->control_tmp == g_tmp0 || (g_tmp0 == NULL && r->control_tmp == (struct fstrm_control *)(void *)tk_new))''')],
         functions=['fstrm_reader_read', 'fstrm__reader_next_data', 'fstrm__reader_read_be32', 'fstrm__reader_maybe_open'],
         bounded=dict(unwind=5), what='read returns exactly the next data frame, or refuses'))
add(Unit('rd.open', RD, entry='h_open', enforce='fstrm_reader_open/reader_open_c', covers=3,
         loops=[Loop('fstrm/reader.c', 'fstrm__reader_open_unidirectional', RCT, '''
           __CPROVER_assigns(i, res, match, gcur, gwit)
           __CPROVER_loop_invariant(i <= V._n && match == (i == 0) && !gwit && IMPL(gk < i, !mstart(gk)))'''),
                Loop('fstrm/reader.c', 'fstrm__reader_open_bidirectional', RCT, '''
           __CPROVER_assigns(i, res, gcur, acc_n, acc_k, acc_any, acc_last)
           __CPROVER_loop_invariant(i <= V._n && IMPL(acc_any, acc_last < i) && acc_k == ((gk < i && mready(gk)) ? 1 : 0) && acc_n <= i)''')],
         functions=['fstrm_reader_open', 'fstrm__reader_open_bidirectional', 'fstrm__reader_open_unidirectional'],
         bounded=dict(unwind=5), what='the handshake, step by step, for any number of content types'))
add(Unit('rd.close', RD, entry='h_close', covers=2, functions=['fstrm_reader_close'], bounded=dict(unwind=5), what='close'))
add(Unit('rd.ctl', RD, entry='h_ctl', covers=1, replace=['fstrm_reader_open/open_c'], functions=['fstrm_reader_get_control', 'fstrm_reader_options_set_max_frame_size'], bounded=dict(unwind=5), what='accessors'))
WR = 'units/writer.c'
WCT = 'for (size_t i = 0; i < fs_bufvec_size(w->content_types); i++)'
WT_T = 'transport (fstrm_rdwr_write) by contract: writes all or fails'
add(Unit('wr.batch', WR, flags=['--arrays-uf-always'], entry='h_write_iov', enforce='fstrm__writer_write_iov/write_iov_c', covers=1,
         loops=[Loop('fstrm/writer.c', 'fstrm__writer_write_iov', 'for (int i = 0, iov_idx = 0; i < iovcnt; i++)', '''
           __CPROVER_assigns(i, iov_idx, __CPROVER_object_whole(IOV), __CPROVER_object_whole(LENS))
           __CPROVER_loop_invariant(i >= 0 && i <= iovcnt && iov_idx == 2 * i)
           __CPROVER_loop_invariant(IMPL(gi < i,
               LENS[gi] == htonl((uint32_t)iov[gi].iov_len) && IOV[2 * gi].iov_len == 4 &&
               IOV[2 * gi].iov_base == (void *)&LENS[gi] &&
               IOV[2 * gi + 1].iov_base == iov[gi].iov_base && IOV[2 * gi + 1].iov_len == iov[gi].iov_len))''')],
         functions=['fstrm__writer_write_iov'], bounded=dict(unwind=5), what='a batch of up to 128 frames goes out length-prefixed, whole, in one gathered write'))
add(Unit('wr.write', WR, entry='h_write1', covers=1, functions=['fstrm_writer_write'], redirect=['fstrm_writer_writev:w1_writev'], bounded=dict(unwind=5), what='a single frame is a batch of one'))
add(Unit('wr.writev', WR, entry='h_writev', enforce='fstrm_writer_writev/writev_c', replace=['fstrm_writer_open/open_c', 'fstrm__writer_write_iov/batch_c'], covers=4,
         loops=[Loop('fstrm/writer.c', 'fstrm_writer_writev', 'for (int i = 0; i < iovcnt; i++)', '''
           __CPROVER_assigns(i)
           __CPROVER_loop_invariant(i >= 0 && i <= iovcnt && inst(iov, i) && IMPL(!g_allvalid, i <= gi))'''),
                Loop('fstrm/writer.c', 'fstrm__writer_write_iov_stupid', 'while (iovcnt > 0)', '''
           __CPROVER_assigns(iov, iovcnt, res, gdone, gtrk, gwfail, gwres)
           __CPROVER_loop_invariant(gdone >= 0 && gdone <= gniov && iovcnt == gniov - gdone && iov == giov + gdone && !gwfail && gtrk == (gi < gdone))''')],
         functions=['fstrm_writer_writev', 'fstrm__writer_write_iov_stupid', 'fstrm__writer_maybe_open'],
         bounded=dict(unwind=5), what='every frame goes out exactly once, in order; unrepresentable frames are refused before anything is sent'))
add(Unit('wr.open', WR, entry='h_open', enforce='fstrm_writer_open/writer_open_c', covers=3,
         loops=[Loop('fstrm/writer.c', 'fstrm__writer_open_bidirectional', WCT, '''
           __CPROVER_assigns(i, res, gcur, ready_n, ready_k)
           __CPROVER_loop_invariant(i <= V._n && ready_n == i && ready_k == (gk < i ? 1 : 0))'''),
                Loop('fstrm/writer.c', 'fstrm__writer_open_bidirectional', WCT, '''
           __CPROVER_assigns(i, res, match, match_ctype, len_match_ctype, gcur, gwit, gw, start_idx)
           __CPROVER_loop_invariant(i <= V._n && match == (i == 0) && !gw && match_ctype == NULL && IMPL(gk < i, !macc(gk)) && start_idx == 0)''', nth=1)],
         functions=['fstrm_writer_open', 'fstrm__writer_open_bidirectional', 'fstrm__writer_open_unidirectional'],
         bounded=dict(unwind=5), what='the handshake, step by step, for any number of content types'))
add(Unit('wr.close', WR, entry='h_close', covers=2, functions=['fstrm_writer_close'], bounded=dict(unwind=5), what='STOP, FINISH, close'))
add(Unit('wr.ctl', WR, entry='h_ctl', covers=1, replace=['fstrm_writer_open/open_c'], functions=['fstrm_writer_get_control'], bounded=dict(unwind=5), what='accessors'))
RW_ = 'units/rdwr.c'
RWB = dict(unwind=6)
for n_, f_, c_, w_ in (
    ('open', ['fstrm_rdwr_open', 'fstrm_rdwr_init', 'fstrm_rdwr_set_open', 'fstrm_rdwr_set_close', 'fstrm_rdwr_set_read', 'fstrm_rdwr_set_write', 'fstrm_rdwr_set_destroy'], 2, 'open exactly once; state exact'),
    ('close', ['fstrm_rdwr_close'], 2, 'close exactly once, only when open'),
    ('read', ['fstrm_rdwr_read'], 2, 'read only when open; a failure closes'),
    ('write', ['fstrm_rdwr_write'], 2, 'write only when open; a failure closes'),
    ('destroy', ['fstrm_rdwr_destroy'], 1, 'closes when open, destroys once, frees'),
    ('rcf', ['fstrm__rdwr_read_control_frame'], 2, 'reads exactly one control frame and decodes exactly its bytes'),
    ('rc', ['fstrm__rdwr_read_control'], 2, 'succeeds exactly on the wanted type'),
    ('wcf', ['fstrm__rdwr_write_control_frame'], 1, 'writes exactly the encoded frame'),
    ('wc', ['fstrm__rdwr_write_control'], 2, 'builds and writes one frame, frees it on every path')):
    add(Unit('rw.' + n_, RW_, entry='h_' + n_, covers=c_, functions=f_, bounded=RWB, what=w_, trusted=['transport methods (any result)']))
for t_, d_ in (('unix', []), ('tcp', ['TCP=1'])):
    f_ = 'fstrm/%s_writer.c' % t_; o_ = 'fstrm__%s_writer_op_' % t_
    SWL = [Loop(f_, o_ + 'write', 'for (int i = 0; i < iovcnt; i++)', '''
             __CPROVER_assigns(i, nbytes)
             __CPROVER_loop_invariant(i >= 0 && i <= iovcnt && defP(i) && useREST(IOV, i) && nbytes == P(i) && P(i) <= (uint64_t)i << 32)'''),
           Loop(f_, o_ + 'write', 'for (;;)', '''
             __CPROVER_assigns(written, cur, iovcnt, msg.msg_iov, msg.msg_iovlen, __CPROVER_object_whole(IOV), sent, sent0, lastk, wfailed, vf_errno, gb)
             __CPROVER_loop_invariant(AT(msg.msg_iov, iovcnt, sent) && msg.msg_iovlen == iovcnt && cur == 0 && !wfailed && REST(msg.msg_iov))'''),
           Loop(f_, o_ + 'write', 'do', '''
             __CPROVER_assigns(written, sent, sent0, lastk, wfailed, vf_errno, gb, msg.msg_iov)
             __CPROVER_loop_invariant(AT(msg.msg_iov, msg.msg_iovlen, sent) && !wfailed && REST(msg.msg_iov))'''),
           Loop(f_, o_ + 'write', 'while (cur < iovcnt && written >= (ssize_t) msg.msg_iov[cur].iov_len)', '''
             __CPROVER_assigns(written, cur)
             __CPROVER_loop_invariant(NORM(msg))
             __CPROVER_loop_invariant(cur >= 0 && cur <= iovcnt && written >= 0 && defP(BIX(msg.msg_iov) + cur) && useREST(msg.msg_iov, BIX(msg.msg_iov) + cur))
             __CPROVER_loop_invariant(IMPL(cur == 0, written == lastk && sent == sent0 + lastk && AT(msg.msg_iov, iovcnt, sent0)))
             __CPROVER_loop_invariant(IMPL(cur > 0, P(BIX(msg.msg_iov) + cur) + written == sent))''')]
    add(Unit('sock.%s.write' % t_, 'units/sock.c', entry='h_write', defs=d_, loops=SWL, flags=['--arrays-uf-always'], timeout=600, weight=9, covers=2, functions=[o_ + 'write'],
             bounded=dict(unwind=4, defs=['VF_SMALL=1']), trusted=['sendmsg (takes any prefix of what is offered, or fails)'], what='every byte is sent exactly once, in order, through any pattern of partial sends'))
    add(Unit('sock.%s.read' % t_, 'units/sock.c', entry='h_read', defs=d_, covers=2, functions=[o_ + 'read', 'read_bytes'],
             loops=[Loop('libmy/read_bytes.h', 'read_bytes', 'while (bytes_needed > 0)', '''
             __CPROVER_assigns(bytes_needed, buf, rdone, rfailed, vf_errno)
             __CPROVER_loop_invariant(rdone <= rtotal && bytes_needed == rtotal - rdone && SAME(buf, RB) && OFF(buf) == rdone && !rfailed)''')],
             bounded=dict(unwind=5), trusted=['read (delivers any prefix of what is asked, or fails)'], what='every byte asked for is received, through any pattern of partial reads'))
    add(Unit('sock.%s.open' % t_, 'units/sock.c', entry='h_open', defs=d_, covers=2, functions=[o_ + 'open'], bounded=dict(unwind=5), trusted=['socket, connect, fcntl, close'], what='connects once or leaves nothing behind'))
    add(Unit('sock.%s.close' % t_, 'units/sock.c', entry='h_close', defs=d_, covers=1, functions=[o_ + 'close'], bounded=dict(unwind=5), what='closes exactly once'))
add(Unit('sock.mono', 'units/sock.c', entry='h_mono', loops=True, covers=1, bounded=dict(unwind=6), what='lemma: prefix sums of element lengths are monotone'))

FW = [Loop('fstrm/file.c', 'fstrm__file_op_write', 'for (int idx = 0; idx < iovcnt; idx++)', '''
             __CPROVER_assigns(idx, wcount, failed, f->fp, CUR, live, n_fclose)
             __CPROVER_loop_invariant(idx >= 0 && idx <= iovcnt && wcount == idx && !failed && f->fp == CUR && CUR != NULL && live && n_fclose == 0 && (pf_fail < 0 || idx <= pf_fail))''')]
for n_, f_, c_, l_, w_ in (('open', ['fstrm__file_op_open'], 3, (), 'opens once, or nothing'), ('close', ['fstrm__file_op_close'], 2, (), 'closes once and reports failures'),
    ('read', ['fstrm__file_op_read'], 3, (), 'all bytes, or end of file, or failure'), ('write', ['fstrm__file_op_write', 'fstrm__file_op_close'], 2, FW, 'all buffers in order, first failure reported'),
    ('destroy', ['fstrm__file_op_destroy'], 1, (), 'frees once'), ('init', ['fstrm__file_init', 'fstrm_file_reader_init', 'fstrm_file_writer_init', 'fstrm_file_options_init', 'fstrm_file_options_destroy', 'fstrm_file_options_set_file_path'], 3, (), 'one-way transport with a private copy of the path')):
    add(Unit('file.' + n_, 'units/file.c', entry='h_' + n_, loops=l_, covers=c_, functions=f_, bounded=dict(unwind=5), what=w_, trusted=['stdio: fopen, fclose, fread, fwrite, ferror, feof; strdup']))
for t_, d_, f_ in (('mb', [], 'my_queue_mb_'), ('mutex', ['MUTEX=1'], 'my_queue_mutex_')):
    for n_, c_, w_ in (('insert', 3, 'stores whole items in free slots, publishes after the copy'), ('remove', 3, 'takes whole items from occupied slots, releases after the copy'), ('init', 2, 'power-of-two sizes only; empty; freed once'), ('slots', 1, 'lemma: slots in use never coincide')):
        add(Unit('q.%s.%s' % (t_, n_), 'units/queue.c', entry='h_' + n_, defs=d_, covers=c_, functions=[f_ + x for x in ((n_,) if n_ != 'init' else ('init', 'destroy'))] if n_ != 'slots' else [],
                 bounded=dict(unwind=4), what=w_, trusted=['sequentially consistent or x86-TSO memory; each shared index is read and written atomically'] if t_ == 'mb' else ['pthread mutexes exclude each other']))
IO_ = 'units/iothr.c'; IOF = 'fstrm/iothr.c'
FLL = Loop(IOF, 'fstrm__iothr_flush_output', 'for (unsigned i = 0; i < iothr->outq_idx; i++)', '''
        __CPROVER_assigns(i, nfree_gk, nfrees)
        __CPROVER_loop_invariant(i <= IDX && iothr->outq_idx == IDX && useE(i) && nfree_gk == ((i > gk && gk < IDX && hasff(gk)) ? 1 : 0) && nfrees <= i)''')
IOT = ['fstrm_writer_*, my_queue_* and pthread functions by contract (proved in wr.*, q.*)', 'payload pointers are opaque to the I/O thread']
def io(n, fns, covers, what, **k): add(Unit('io.' + n, IO_, entry='h_' + n, covers=covers, functions=fns, bounded=dict(unwind=5), what=what, trusted=IOT, **k))
io('submit', ['fstrm_iothr_submit'], 4, 'a payload is accepted whole or refused')
io('flush', ['fstrm__iothr_flush_output', 'fstrm__iothr_close', 'fstrm__iothr_queue_entry_free_bytes'], 3, 'everything waiting is written once, then freed once', loops=[FLL])
io('entry', ['fstrm__iothr_process_queue_entry', 'fstrm__iothr_maybe_flush_output', 'fstrm__iothr_flush_output'], 4, 'a payload is queued or discarded, never both', loops=[FLL])
io('queues', ['fstrm__iothr_process_queues'], 1, 'every queue is served in turn', replace=['fstrm__iothr_process_queue_entry/entry_c'], loops=[
   Loop(IOF, 'fstrm__iothr_process_queues', 'for (unsigned i = 0; i < iothr->opt.num_input_queues; i++)', '''
        __CPROVER_assigns(i, total, entry, n_rem, n_proc, nok, pend, ent_ptr)
        __CPROVER_loop_invariant(i <= NQ && n_rem == i && useQ(i) && !pend && n_proc == nok && total == nok && nok <= i)''')])
io('open', ['fstrm__iothr_maybe_open', 'fstrm__iothr_open'], 3, 'reopening waits for the interval')
io('close', ['fstrm__iothr_close'], 2, 'closes once')
io('thr', ['fstrm__iothr_thr', 'fstrm__iothr_thr_setup'], 2, 'the thread drains, flushes and closes at shutdown; waits at most the flush timeout', replace=['fstrm__iothr_process_queues/queues_c', 'fstrm__iothr_flush_output/flush_c', 'fstrm__iothr_close/close_c', 'fstrm__iothr_maybe_open/maybe_open_c'], loops=[
   Loop(IOF, 'fstrm__iothr_thr', 'for (;;)', '''
        __CPROVER_assigns(pq_last, st, cl_n, op_n, must_flush, iothr->shutting_down, lk, n_lock, n_unlock, n_clock, ck_asked, timed)
        __CPROVER_loop_invariant(!lk && !must_flush && !cl_n && op_n == 1 && iothr->shutting_down <= 1)'''),
   Loop(IOF, 'fstrm__iothr_thr', 'while (fstrm__iothr_process_queues(iothr))', '''
        __CPROVER_assigns(pq_last, st, iothr->shutting_down)
        __CPROVER_loop_invariant(!lk && !must_flush && !cl_n && op_n == 1 && iothr->shutting_down == 1)''')])
io('getq', ['fstrm_iothr_get_input_queue', 'fstrm_iothr_get_input_queue_idx'], 2, 'each input queue is handed out once')
io('init', ['fstrm_iothr_init'], 4, 'everything is set up, or nothing is left behind', loops=[
   Loop(IOF, 'fstrm_iothr_init', 'for (size_t i = 0; i < iothr->opt.num_input_queues; i++)', '''
        __CPROVER_assigns(i, __CPROVER_object_whole(iothr->queues), n_qinit)
        __CPROVER_loop_invariant(i <= NQ && n_qinit == i && pf_q >= i && invI(iothr->queues, i))'''),
   Loop(IOF, 'fstrm_iothr_init', 'for (size_t i = 0; i < iothr->opt.num_input_queues; i++)', '''
        __CPROVER_assigns(i, __CPROVER_object_whole(iothr->queues), n_qd_gk)
        __CPROVER_loop_invariant(i <= NQ && useI(iothr->queues, i) && invD(iothr->queues, i))''', nth=1)])
io('destroy', ['fstrm_iothr_destroy', 'fstrm__iothr_free_queues'], 1, 'the thread is stopped first, everything is freed once', loops=[
   Loop(IOF, 'fstrm__iothr_free_queues', 'for (i = 0; i < iothr->opt.num_input_queues; i++)', '''
        __CPROVER_assigns(i, cur_q, n_qd_gk, pend, q_empty, rid)
        __CPROVER_loop_invariant(i <= NQ && useI(iothr->queues, i) && cur_q == i && n_qd_gk == (i > gk ? 1 : 0) && !pend && !q_empty)'''),
   Loop(IOF, 'fstrm__iothr_free_queues', 'while (iothr->queue_ops->remove(queue, &entry, NULL))', '''
        __CPROVER_assigns(entry, pend, q_empty, rid)
        __CPROVER_loop_invariant(!pend && !q_empty)''')])
io('free', ['fstrm_free_wrapper'], 1, 'releases the payload')
io('opts', ['fstrm_iothr_options_*'], 4, 'documented ranges and defaults')

CP_ = 'units/capture.c'; CPF = 'src/fstrm_capture.c'
CPT = ['libevent (evbuffer, bufferevent, evconnlistener) and stdio as documented; evbuffer_peek returns non-empty chunks in order', 'fstrm_control_* by contract (proved in P01-P04)']
def cap(n, fns, covers, what, **k):
    red = ['print_string:vf_print_string'] + list(k.pop('redirect', []))
    add(Unit('cap.' + n, CP_, entry='h_' + n, covers=covers, functions=fns, bounded=dict(unwind=k.pop('bu', 6)), what=what, trusted=CPT, redirect=red, **k))
cap('can', ['can_read_full_frame'], 5, 'the frame at the head of the buffer: complete, oversized, incomplete or impossible', redirect=['cb_close_conn:s_close_conn'])
cap('data', ['process_data_frame'], 2, 'a data frame is written byte for byte, once', defs=['VF_NOVA=1'], loops=[
   Loop(CPF, 'process_data_frame', 'for (int i = 0; i < n_vecs; i++)', '''
        __CPROVER_assigns(i, bytes_read, wrote, out_next, may_exit, n_exit)
        __CPROVER_loop_invariant(i >= 0 && i <= NV && useV(vecs, i) && out_next == i && bytes_read == (i < NV ? S(i) : total) && wrote == bytes_read && (!pf_write || i <= pf_at))''')])
cap('cbread', ['cb_read'], 3, 'whole frames are handled one after the other, each in one way', bu=3, redirect=['can_read_full_frame:s_can', 'process_data_frame:s_data', 'maybe_rotate_output:s_rot', 'load_control_frame:s_load', 'process_control_frame:s_proc', 'cb_close_conn:s_close_conn'], defs=['VF_NOVA=1'], loops=[
   Loop(CPF, 'cb_read', 'for (;;)', '''
        __CPROVER_assigns(__CPROVER_object_whole(CN), P, L, nb, full, loaded, must_close, last_neg, n_close, n_drain)
        __CPROVER_loop_invariant(n_close == 0 && !must_close && !full && !loaded && P + L == __CPROVER_loop_entry(P) + __CPROVER_loop_entry(L) && L <= __CPROVER_loop_entry(L) && nb == P + CN->bytes_skip && CN->bytes_skip <= 1ULL << 33
          && CN->bev == BEV && CN->ev_input == EVI && CN->ctx == CX && CN->control == CTL && CN->state >= CONN_STATE_READING_CONTROL_READY && CN->state <= CONN_STATE_STOPPED)''')])
cap('load', ['load_control_frame'], 2, 'a control frame is taken whole or not at all')
cap('ctl', ['process_control_frame', 'process_control_frame_ready', 'process_control_frame_start', 'process_control_frame_stop', 'match_content_type', 'write_control_frame', 'send_frame'], 4, 'the protocol state machine', defs=['VF_NOVA=1'], loops=[
   Loop(CPF, 'process_control_frame_ready', 'for (size_t i = 0; i < n_content_type; i++)', '''
        __CPROVER_assigns(i, res, content_type, len_content_type)
        __CPROVER_loop_invariant(i <= n_content_type)''')])
cap('close', ['cb_close_conn', 'conn_destroy'], 2, 'a connection is freed once and gives back its place')
cap('write', ['cb_write'], 2, 'closed after the FINISH was sent', redirect=['cb_close_conn:s_close_conn'])
cap('accept', ['cb_accept_conn', 'conn_init'], 2, 'a new connection waits for READY and takes a place')
cap('start', ['open_write_start'], 2, 'START with the content type')
cap('stop', ['close_write_stop'], 2, 'STOP')
cap('openf', ['open_write_file'], 4, 'the output file begins with START', redirect=['open_write_start:s_start', 'update_output_fname:s_fname'])
cap('closef', ['close_write_file'], 2, 'the output file ends with STOP and is closed', redirect=['close_write_stop:s_stop'])
cap('rot', ['rotate_output'], 2, 'one file is finished before the next begins', redirect=['close_write_file:s_closef', 'open_write_file:s_openf'])
cap('maybe', ['maybe_rotate_output'], 2, 'rotation when the interval has passed', redirect=['rotate_output:s_rotate'])
cap('fname', ['update_output_fname'], 2, 'the output name is expanded for the current time')
cap('sig', ['do_sigusr1', 'do_sighup'], 2, 'signals', redirect=['rotate_output:s_rotate'])
cap('main', ['main'], 3, 'the whole program: steps in order, success only if all succeeded', redirect=['parse_args:s_parse', 'open_read_unix:s_ru', 'open_read_tcp:s_rt', 'open_write_file:s_ow', 'setup_event_loop:s_se', 'setup_signals:s_sg', 'close_write_file:s_cw', 'cleanup:s_cu', 'usage:s_usage'])
cap('args', ['parse_args'], 3, 'options that make sense together, and what they set', redirect=['usage:s_usage'])
cap('unix', ['open_read_unix'], 2, 'the whole Unix path', redirect=['usage:s_usage', 'strlen:s_strlen'], bu=120, unwind=120)
cap('tcp', ['open_read_tcp'], 2, 'address and port', redirect=['usage:s_usage'])
cap('evloop', ['setup_event_loop', 'cleanup'], 2, 'listener and signals; released once')
cap('sigs', ['setup_signals', 'shutdown_handler'], 2, 'orderly end on SIGTERM and SIGINT')

LIB = 'the library behaves as stated in P01-P12'
add(Unit('dump.main', 'units/dump.c', entry='h_main', covers=4, functions=['main', 'process_start_frame', 'print_data_frame', 'print_stop_frame'], bounded=dict(unwind=4), what='dump: every frame printed and copied once, honest exit status',
   trusted=[LIB, 'messages on stderr are not judged'], redirect=['print_string:s_print'], loops=[
   Loop('src/fstrm_dump.c', 'main', 'for (;;)', '''
        __CPROVER_assigns(res, rv, n_read, n_print, n_wr, werr, pout, n_nl, n_sp)
        __CPROVER_loop_invariant(n_read <= N && n_print == n_read && n_wr == (wlive ? n_read : 0) && !werr && pout == 0 && rv == 1 && n_sp == 0 && (!pf_wr || !wlive || n_wr <= pf_wat))''')]))
add(Unit('dump.ps', 'units/dump.c', entry='h_ps', covers=2, functions=['print_string'], bounded=dict(unwind=5), what='quoting', flags=['--arrays-uf-always'], defs=['VF_PS=1'], trusted=['the C locale'], loops=[
   Loop('libmy/print_string.h', 'print_string', 'while (len-- != 0)', '''
        __CPROVER_assigns(len, str, ck, cj, cph)
        __CPROVER_loop_invariant(len <= LEN && ck == LEN - len && cj == 0 && cph == 1 && data == dat && str == (uint8_t *)data + ck)''')]))
RPF = 'src/fstrm_replay.c'
def rep(n, fns, covers, what, **k):
    add(Unit('rep.' + n, 'units/replay.c', entry='h_' + n, covers=covers, functions=fns, bounded=dict(unwind=5), what=what, trusted=[LIB, 'messages on stderr are not judged'], **k))
rep('file', ['process_file'], 3, 'every frame of a file of the content type is sent once, in order', loops=[
   Loop(RPF, 'process_file', 'for (;;)', '''
        __CPROVER_assigns(res, control, n_read, n_wr, may_exit, n_exit)
        __CPROVER_loop_invariant(n_read <= N && n_wr == n_read && !may_exit && (!pf_wr || n_wr <= pf_wat))''')])
rep('init', ['init_writer'], 3, 'a writer to the place asked for', redirect=['usage:s_usage'])
rep('main', ['main'], 2, 'every file in order, then the end of the stream; honest exit status', redirect=['usage:s_usage', 'parse_args:s_pa', 'init_writer:s_iw', 'process_file:s_pf'], loops=[
   Loop(RPF, 'main', 'for (i = 0; i < ARGV_ARRAY_COUNT(g_program_args.files); i++)', '''
        __CPROVER_assigns(i, n_pf, may_exit, n_exit)
        __CPROVER_loop_invariant(0 <= i && i <= NF && n_pf == i && !may_exit)''')])
rep('args', ['parse_args'], 2, 'the options', redirect=['usage:s_usage', 'strlen:s_strlen'])
for t_, d_, v_ in (('rd', [], 'r'), ('wr', ['VF_W=1'], 'w')):
    N_ = dict(rd='reader', wr='writer')[t_]; f_ = 'fstrm/%s.c' % N_; o_ = v_ + 'opt'; OT = ['malloc and calloc succeed', 'vectors and buffers by contract (proved in vec.*)']
    add(Unit('own.%s.init' % t_, 'units/own.c', entry='h_init', defs=d_, covers=2, functions=['fstrm_%s_init' % N_], bounded=dict(unwind=30), trusted=OT, what='takes the transport, copies the options', loops=[
       Loop(f_, 'fstrm_%s_init' % N_, 'for (size_t i = 0; i < fs_bufvec_size(%s->content_types); i++)' % o_, '''
        __CPROVER_assigns(i, n_cp, n_add, cp_len, moved, V._n)
        __CPROVER_loop_invariant(i <= NV && n_cp == i && n_add == i && V._n == i)''')]))
    add(Unit('own.%s.destroy' % t_, 'units/own.c', entry='h_destroy', defs=d_, covers=2, functions=['fstrm_%s_destroy' % N_], bounded=dict(unwind=8), trusted=OT, redirect=['fstrm_%s_close:s_close' % N_], what='closes, then frees everything once', loops=[
       Loop(f_, 'fstrm_%s_destroy' % N_, 'for (size_t i = 0; i < fs_bufvec_size((*%s)->content_types); i++)' % v_, '''
        __CPROVER_assigns(i, n_ft, n_fk)
        __CPROVER_loop_invariant(i <= NV && n_ft == i && n_fk == (gk < i ? 1 : 0))''')]))
    add(Unit('own.%s.opts' % t_, 'units/own.c', entry='h_opts', defs=d_, covers=2, functions=['fstrm_%s_options_%s' % (N_, x) for x in ('init', 'destroy', 'add_content_type')], bounded=dict(unwind=30), trusted=OT, what='options own copies of the content types', loops=[
       Loop(f_, 'fstrm_%s_options_destroy' % N_, 'for (size_t i = 0; i < fs_bufvec_size((*%s)->content_types); i++)' % o_, '''
        __CPROVER_assigns(i, n_ft, n_fk)
        __CPROVER_loop_invariant(i <= V._n && n_ft == i && n_fk == (gk < i ? 1 : 0))''')]))
for t_, d_, st_ in (('unix', [], ['socket_path']), ('tcp', ['TCP=1'], ['socket_address', 'socket_port'])):
    o_ = 'fstrm_%s_writer_' % t_
    add(Unit('sock.%s.init' % t_, 'units/sockown.c', entry='h_init', defs=d_, covers=3, functions=[o_ + 'init'] + ['fstrm__tcp_writer_fill_socket_' + x for x in ('address', 'port') if t_ == 'tcp'], bounded=dict(unwind=10), trusted=['strlen, strncpy, strtoul, inet_pton, strdup, calloc'], what='a two-way transport to exactly that address, or nothing'))
    add(Unit('sock.%s.destroy' % t_, 'units/sockown.c', entry='h_destroy', defs=d_, covers=1, functions=[o_ + 'options_' + x for x in ['init', 'destroy'] + ['set_' + y for y in st_]] + ['fstrm__%s_writer_op_destroy' % t_], bounded=dict(unwind=10), trusted=['strdup, calloc'], what='options own copies; everything is freed once'))

for t_, d_ in (('ubuf', []), ('fs_bufvec', ['VF_FS=1'])):
    for n_, c_, f_ in (('add', 2, ['add']), ('reserve', 2, ['reserve', 'ptr']), ('append', 2, ['append', 'reserve']), ('simple', 6, ['reset', 'clip', 'advance', 'value', 'size', 'bytes', 'data', 'ptr', 'detach']), ('life', 4, ['init', 'destroy']), ('extend', 2, ['extend', 'append']), ('reinit', 2, ['reinit']), ('cstr', 1, ['add_cstr']), ('fmt', 2, ['add_fmt']), ('text', 5, ['cterm', 'cstr', 'rstrip', 'dup_cstr', 'new'])):
        if n_ in ('text', 'fmt', 'cstr') and d_: continue
        add(Unit('vec.%s.%s' % (t_, n_), 'units/vec.c', entry='h_' + n_, defs=d_, covers=c_, functions=[t_ + '_' + x for x in f_], flags=[] if n_ == 'text' else ['--arrays-uf-always'], unwind=37, bounded=dict(unwind=9), trusted=['malloc, calloc and realloc succeed; realloc keeps the old content'] + (['vsnprintf, strlen'] if n_ in ('text', 'fmt', 'cstr') else []), what='growable arrays (%s)' % n_))
add(Unit('io.clock', 'units/time.c', entry='h_time', covers=6, functions=['fstrm__get_best_monotonic_clock_gettime', 'fstrm__get_best_monotonic_clock_pthread', 'fstrm__get_best_monotonic_clocks'], bounded=dict(unwind=3), trusted=['the clock and condition attribute calls answer the same for the same clock'], what='a clock that works is chosen, or failure is reported'))
AG = ['stdio output is not judged', 'option tables of at most 12 entries (the programs have 12 and 7)']
def arg(n, fns, covers, what, trusted=(), unwind=14, **k):
    add(Unit('arg.' + n, 'units/argv.c', entry=k.pop('entry', 'h_' + n), covers=covers, functions=fns, unwind=unwind, bounded=k.pop('bounded', dict(unwind=9)), what=what, trusted=AG + list(trusted), **k))
arg('enqueue', ['enqueue'], 2, 'the queue of options waiting for a value grows with its entries', ['realloc keeps the old content'])
arg('or', ['check_or'], 3, 'options that exclude each other')
arg('xor', ['check_xor'], 2, 'options one of which is needed', ['there: tables of at most 8 entries'], unwind=10, defs=['NG=8'], level='bounded', bound='tables of 8 entries')
arg('mand', ['check_mand', 'check_opt'], 3, 'mandatory options and missing values')
arg('pre', ['preprocess_array'], 2, 'a table is refused exactly if it is malformed')
VR = ['string_copy:s_copy', 'btoi:s_btoi', 'otoi:s_btoi', 'htoi:s_btoi']
arg('value', ['string_to_value'], 5, 'a value is stored in the variable, with its type, and nowhere else', ['atoi, atol, sscanf'], unwind=27, redirect=VR)
arg('size', ['string_to_value'], 4, 'sizes with a unit', ['atol', 'strings of at most 24 characters'], unwind=27, redirect=VR, level='bounded', bound='values of 24 characters')
arg('isnum', ['is_number'], 2, 'numbers', ['strings of at most 24 characters'], unwind=27, level='bounded', bound='values of 24 characters')
arg('doarg', ['do_arg'], 3, 'one option is set, or waits for its value', redirect=['string_to_value:d_val', 'check_or:d_or', 'enqueue:d_enq'])
arg('top', ['argv_process_no_env'], 2, 'every argument and every check counts', ['program names of at most 11 characters'], redirect=['preprocess_array:t_pre', 'preprocess_env_args:t_env', 'do_list:t_list', 'check_mand:t_mand', 'check_opt:t_opt', 'check_xor:t_xor', 'do_usage:t_usage'], level='bounded', bound='program names of 11 characters')
arg('copy', ['string_copy'], 2, 'copies of values', ['strings of at most 25 characters'], unwind=27, level='bounded', bound='values of 25 characters')
arg('file', ['file_args'], 3, 'every line of an argument file is one argument', ['files of at most 11 lines of at most one character'], unwind=18, level='bounded', bound='11 lines', defs=['NG=1'], redirect=['do_list:f_list', 'string_copy:f_copy'])
arg('cleanup', ['argv_cleanup'], 2, 'what the options own is freed once', ['arrays of at most 2 values'], level='bounded', bound='arrays of 2 values')
arg('proc', ['argv_process'], 2, 'the result is that of the command line', redirect=['process_env:p_env', 'argv_process_no_env:p_no_env'])
arg('radix', ['btoi', 'otoi', 'htoi'], 3, 'numbers in base 2, 8 and 16', unwind=9, level='bounded', bound='values of 7 characters', defs=['NG=1'])
arg('vec', ['vectorize'], 2, 'the words of the environment variable', unwind=10, level='bounded', bound='a text of 8 characters', defs=['NG=1'], redirect=['string_copy:v_copy'])
ER = ['string_copy:e_copy', 'vectorize:e_vect']
arg('env', ['preprocess_env_args'], 2, 'the environment variable named after the program, in upper case', ['snprintf: the result is cut to the size that is given', 'isupper etc: the C locale'], unwind=1026, bounded=dict(unwind=30, defs=['EM=24']), defs=['NG=1', 'H_ENV=1'], redirect=ER, loops=[
    Loop('libmy/argv.c', 'preprocess_env_args', "for (environ_p = env_name; *environ_p != '\\0'; environ_p++)", '''
        __CPROVER_assigns(environ_p, __CPROVER_object_whole(env_name))
        __CPROVER_loop_invariant(__CPROVER_same_object(environ_p, env_name) && __CPROVER_POINTER_OFFSET(environ_p) <= e_z && env_name[e_z] == 0)
        __CPROVER_loop_invariant(!e_up || env_name[e_k] == (e_low && __CPROVER_POINTER_OFFSET(environ_p) > e_k ? (char)(e_c - 'a' + 'A') : e_c))
        __CPROVER_loop_invariant(__CPROVER_forall { int vi; (0 <= vi && vi < 1024) ==> (vi < e_z ==> env_name[vi] != 0) })''')])
arg('global', ['process_env'], 3, 'the settings of all programs', unwind=20, level='bounded', bound='two settings of 16 characters', defs=['NG=1', 'H_ENV=1'], redirect=ER)
for s_, d_, u_, c_ in (('', [], 15, 4), ('.rest', ['LA=2', 'LL=2'], 15, 2), ('.two', ['LA=2', 'LL=2', 'LFREE=1'], 15, 3)):
    arg('list' + s_, ['do_list'], c_, 'each argument does what the documented rules say, in order' if not s_ else 'behind "--", every argument is a value', unwind=u_, level='bounded', bound='one argument of 4 characters, 3 options with names of 2 characters' if not s_ else 'two arguments of 2 characters, 3 options with names of 2 characters' if s_ == '.two' else 'one argument of 2 characters behind "--", 3 options with names of 2 characters',
        defs=['NG=3'] + d_, entry='h_list', thorough_only=s_ == '.two', redirect=['do_arg:l_arg', 'string_to_value:l_val', 'enqueue:l_enq', 'file_args:l_file', 'do_usage:l_usage', 'display_variables:l_disp'])
