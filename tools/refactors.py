"""Behaviour-preserving edits, written by hand: every check must stay quiet on each."""
R = {}


def r(name, f, *edits):
    R[name] = (f, edits)


r('log-pending', 'src/core/log.c', ('''int logger_set_level(lstr_t name, int level, unsigned flags)
{
''', '''static void logger_set_pending_level(lstr_t name, int level, unsigned flags)
{
    int pos;

    if (level != LOG_UNDEFINED) {
        struct level l = { .level = level, .flags = flags };
        uint32_t upos = qm_put(level, &_G.pending_levels, &name, l,
                               QHASH_OVERWRITE);

        if (upos & QHASH_COLLISION) {
            return;
        }
        _G.pending_levels.keys[upos] = lstr_dup(name);
        return;
    }

    pos = qm_del_key(level, &_G.pending_levels, &name);
    if (pos >= 0) {
        lstr_wipe(&_G.pending_levels.keys[pos]);
    }
}

int logger_set_level(lstr_t name, int level, unsigned flags)
{
'''), ('''        if (level == LOG_UNDEFINED) {
            int pos = qm_del_key(level, &_G.pending_levels, &name);

            if (pos >= 0) {
                lstr_wipe(&_G.pending_levels.keys[pos]);
            }
        } else {
            struct level l = { .level = level, .flags = flags };
            uint32_t pos;

            pos = qm_put(level, &_G.pending_levels, &name, l, QHASH_OVERWRITE);
            if (!(pos & QHASH_COLLISION)) {
                _G.pending_levels.keys[pos] = lstr_dup(name);
            }
        }
        log_spin_unlock();
''', '''        logger_set_pending_level(name, level, flags);
        log_spin_unlock();
'''), ('''    if (level == LOG_UNDEFINED) {
        logger->level_flags = logger->default_level_flags;
    } else {
        logger->level_flags = flags;
    }
    SWAP(int, logger->level, level);
''', '''    logger->level_flags = level == LOG_UNDEFINED
                        ? logger->default_level_flags : flags;
    SWAP(int, logger->level, level);
'''))
r('module-shutdown', 'src/core/module.c', ('''__attr_nonnull__((1))
static int module_shutdown(module_t *module)
{
    int shut_dependent = 1;
    int shut_self;
''', '''static int module_shutdown_deps(module_t *module)
{
    int res = 1;

    for (int i = 0; i < module->depends_on.len; i++) {
        int shut = notify_shutdown(module->depends_on.tab[i], module);

        if (shut >= 0) {
            continue;
        }
        res = shut;
    }
    return res;
}

__attr_nonnull__((1))
static int module_shutdown(module_t *module)
{
    int shut_dependent;
    int shut_self;
'''), ('''    tab_for_each_entry(dep, &module->depends_on) {
        int shut;

        shut = notify_shutdown(dep, module);
        if (shut < 0) {
            shut_dependent = shut;
        }
    }

    if (shut_self >= 0) {
        module->state = REGISTERED;
    }

    RETHROW(shut_dependent);
    RETHROW(shut_self);
    return 0;
''', '''    shut_dependent = module_shutdown_deps(module);

    if (shut_self >= 0) {
        module->state = REGISTERED;
    }

    if (shut_dependent < 0) {
        return shut_dependent;
    }
    return shut_self < 0 ? shut_self : 0;
'''))
r('ring-release', 'src/core/mem-ring.c', ('''void mem_ring_release(const void *cookie)
{
''', '''/* Move the blocks strictly between blk1 and blk2 after the current one. */
static void ring_requeue_blocks(ring_pool_t *rp, ring_blk_t *blk1,
                                ring_blk_t *blk2)
{
    dlist_t *first, *last, *at;

    if (blk1 == blk2 || dlist_next_entry(blk1, blist) == blk2) {
        return;
    }
    first = blk1->blist.next;
    last  = blk2->blist.prev;
    __dlist_remove(&blk1->blist, &blk2->blist);
    at = &rp->cblk->blist;
    __dlist_splice2(at, at->next, first, last);
}

static void ring_release_last(ring_pool_t *rp, frame_t *frame)
{
    frame_t *fprev;

    if (dlist_is_empty_or_singular(&rp->fhead)) {
        ring_reset_frame(rp, frame, true);
        return;
    }
    fprev = dlist_prev_entry(frame, flist);
    if (!(fprev->rp & FRAME_IS_FREE)) {
        ring_reset_frame(rp, frame, true);
        return;
    }
    ring_reset_to_prevframe(rp, fprev, frame);
}

void mem_ring_release(const void *cookie)
{
'''), ('''        if (dlist_is_empty_or_singular(&rp->fhead)) {
            ring_reset_frame(rp, frame, true);
        } else {
            frame_t *fprev = dlist_prev_entry(frame, flist);

            if (fprev->rp & FRAME_IS_FREE) {
                /* TODO We could rewind on more than one frame. */
                ring_reset_to_prevframe(rp, fprev, frame);
            } else {
                ring_reset_frame(rp, frame, true);
            }
        }
''', '''        ring_release_last(rp, frame);
'''), ('''            ring_blk_t *blk1, *blk2;

            if (fprev->rp''', '''
            if (fprev->rp'''), ('''                blk1 = frame->blk;
                blk2 = fnext->blk;
                if (blk1 != blk2 && dlist_next_entry(blk1, blist) != blk2) {
                    dlist_t *first = blk1->blist.next;
                    dlist_t *last  = blk2->blist.prev;
                    dlist_t *at;

                    /* remove elements strictly between blk1 and blk2 */
                    __dlist_remove(&blk1->blist, &blk2->blist);
                    /* and splice first->...->last between at and at->next */
                    at = &rp->cblk->blist;
                    __dlist_splice2(at, at->next, first, last);
                }
''', '''                ring_requeue_blocks(rp, frame->blk, fnext->blk);
'''), ('''    rp->frames_cnt--;
    rp->nb_frames_release++;

    if (rp->nb_frames_release >= 256) {
''', '''    rp->frames_cnt -= 1;

    if (++rp->nb_frames_release >= 256) {
'''))
r('filebin-next', 'src/core/file-bin.c', ('''    do {
        res = _file_bin_get_next_record(file, &rec);
    } while (res >= 0 && !rec.s);
''', '''    for (;;) {
        res = _file_bin_get_next_record(file, &rec);
        if (res < 0 || rec.s) {
            break;
        }
    }
'''))
r('filebin-put', 'src/core/file-bin.c', ('''    uint32_t total_size = len + RC_HDR_SIZE;
    off_t next_entry;
    uint32_t remaining;
''', '''    const uint32_t total_size = RC_HDR_SIZE + len;
    off_t next_entry;
    uint32_t remaining;
    bool skip_slot;
'''), ('''    if (remaining < RC_HDR_SIZE
    ||  (file->version == 0 && remaining < total_size))
    {
        file->cur += remaining;
    }
''', '''    skip_slot = remaining < RC_HDR_SIZE;
    if (!skip_slot && file->version == 0) {
        skip_slot = remaining < total_size;
    }
    if (skip_slot) {
        file->cur += remaining;
    }
'''), ('''    RETHROW(file_bin_write_data(file, data, len, next_entry, false));

    return 0;
''', '''    if (file_bin_write_data(file, data, len, next_entry, false) < 0) {
        return -1;
    }
    return 0;
'''))
r('wah-add1s', 'src/core/bit-wah.c', ('''void wah_add1s(wah_t *map, uint64_t count)
{
''', '''static ALWAYS_INLINE void wah_count_ones(wah_t *map, uint64_t nb)
{
    map->active += nb;
    map->len    += nb;
}

void wah_add1s(wah_t *map, uint64_t count)
{
'''), ('''        map->_pending |= BITMASK_LT(uint32_t, count) << remain;
        map->len     += count;
        map->active  += count;
        wah_check_invariant(map);
        return;
    }
    if (remain > 0) {
        map->_pending |= BITMASK_GE(uint32_t, remain);
        map->len     += WAH_BIT_IN_WORD - remain;
        map->active  += WAH_BIT_IN_WORD - remain;
        count        -= WAH_BIT_IN_WORD - remain;
        __wah_push_pending(map, 1);
''', '''        map->_pending |= BITMASK_LT(uint32_t, count) << remain;
        wah_count_ones(map, count);
        wah_check_invariant(map);
        return;
    }
    if (remain > 0) {
        const uint64_t fill = WAH_BIT_IN_WORD - remain;

        map->_pending |= BITMASK_GE(uint32_t, remain);
        wah_count_ones(map, fill);
        count -= fill;
        __wah_push_pending(map, 1);
'''), ('''    map->_pending = BITMASK_LT(uint32_t, count);
    map->len    += count;
    map->active += count;
''', '''    map->_pending = BITMASK_LT(uint32_t, count);
    wah_count_ones(map, count);
'''))
r('qps-bitmap-set', 'src/core/qps-bitmap.c', ('''    if (map->root->is_nullable) {
        uint64_t word = leaf[key.word_null];
        word >>= (key.bit_null * 2);
        if (!(word & 0x2)) {
            word = (UINT64_C(0x3) << (key.bit_null * 2));
            leaf[key.word_null] |= word;
            (*dispatch)[key.dispatch].active_bits++;
            return QPS_BITMAP_NULL;
        } else
        if (!(word & 0x1)) {
            word = (UINT64_C(0x3) << (key.bit_null * 2));
            leaf[key.word_null] |= word;
            return QPS_BITMAP_0;
        }
        return QPS_BITMAP_1;
    } else {
        uint64_t word = UINT64_C(1) << key.bit;
        if (!(leaf[key.word] & word)) {
            leaf[key.word] |= word;
            (*dispatch)[key.dispatch].active_bits++;
            return QPS_BITMAP_0;
        }
        return QPS_BITMAP_1;
    }
}
''', '''    if (!map->root->is_nullable) {
        uint64_t bit = UINT64_C(1) << key.bit;

        if (leaf[key.word] & bit) {
            return QPS_BITMAP_1;
        }
        leaf[key.word] |= bit;
        (*dispatch)[key.dispatch].active_bits++;
        return QPS_BITMAP_0;
    } else {
        const uint64_t both = UINT64_C(0x3) << (key.bit_null * 2);
        const uint64_t cur = leaf[key.word_null] >> (key.bit_null * 2);

        if (!(cur & 0x2)) {
            leaf[key.word_null] |= both;
            (*dispatch)[key.dispatch].active_bits++;
            return QPS_BITMAP_NULL;
        }
        if (!(cur & 0x1)) {
            leaf[key.word_null] |= both;
            return QPS_BITMAP_0;
        }
        return QPS_BITMAP_1;
    }
}
'''))
r('histogram', 'src/prometheus-client/metrics.c', ('''    self->count++;
    self->sum += value;

    for (int i = self->nb_buckets; i-- > 0;) {
        if (value > parent->bucket_upper_bounds[i]) {
            break;
        }
        self->bucket_counts[i]++;
    }
''', '''    self->sum += value;
    self->count++;

    i = self->nb_buckets - 1;
    while (i >= 0 && !(value > parent->bucket_upper_bounds[i])) {
        self->bucket_counts[i] += 1;
        i--;
    }
'''), ('''    prom_histogram_t *parent = self->parent ?: self;

    if (!is_metric_observable(obj_ccast(prom_metric, self))) {
        prom_metric_panic(obj_vcast(prom_metric, self), "observe",
                          "histogram is not''', '''    prom_histogram_t *parent = self->parent ? self->parent : self;
    int i;

    if (!is_metric_observable(obj_ccast(prom_metric, self))) {
        prom_metric_panic(obj_vcast(prom_metric, self), "observe",
                          "histogram is not'''))
r('query-done', 'src/net/http.c', ('''    q->query_sec  = now.tv_sec;
    q->query_usec = now.tv_usec;
    q->parsed     = true;
    w->queries++;
    httpd_flush_answered(w);
    if (w->connection_close) {
        w->state = HTTP_PARSER_CLOSE;
    } else {
        w->state = HTTP_PARSER_IDLE;
    }
    w->chunk_length = 0;
    obj_release(&q);
''', '''    q->parsed     = true;
    q->query_usec = now.tv_usec;
    q->query_sec  = now.tv_sec;
    w->queries   += 1;
    httpd_flush_answered(w);
    w->chunk_length = 0;
    w->state = w->connection_close ? HTTP_PARSER_CLOSE : HTTP_PARSER_IDLE;
    obj_release(&q);
'''))
r('flush-answered', 'src/net/http.c', ('''    dlist_for_each_entry(httpd_query_t, q, &w->query_list, query_link) {
        if (q->own_ob) {
            ob_merge_delete(&w->ob, &q->ob);
            q->own_ob = false;
        }
        if (!q->answered) {
            q->ob = &w->ob;
            break;
        }
        if (likely(q->parsed)) {
            httpd_query_detach(q);
        }
    }
    httpd_set_mask(w);
''', '''    dlist_for_each_entry(httpd_query_t, q, &w->query_list, query_link) {
        bool own_ob = q->own_ob;

        if (own_ob) {
            ob_merge_delete(&w->ob, &q->ob);
            q->own_ob = false;
        }
        if (q->answered) {
            if (q->parsed) {
                httpd_query_detach(q);
            }
            continue;
        }
        q->ob = &w->ob;
        break;
    }
    httpd_set_mask(w);
'''))
r('server-stop', 'src/iop/rpc-el.c', ('''    ic_el_mutex_lock(true);
    if (server->el_ic) {
        server->is_stopping = true;

        if (!server->wait_for_stop) {
            res = ic_el_server_wait_for_stop(server, -1);
        }
    }
    ic_el_mutex_unlock();

    return res;
''', '''    ic_el_mutex_lock(true);
    if (!server->el_ic) {
        goto end;
    }
    server->is_stopping = true;
    if (server->wait_for_stop) {
        goto end;
    }
    res = ic_el_server_wait_for_stop(server, -1);

  end:
    ic_el_mutex_unlock();
    return res;
'''))
r('http-idle', 'src/net/http.c', ('''          case HTTP_WKHDR_CONTENT_ENCODING:
            switch (http_get_token_ps(qhdr->val)) {
              case HTTP_TK_DEFLATE:
              case HTTP_TK_GZIP:
              case HTTP_TK_X_GZIP:
                http_zlib_inflate_init(w);
                qv_shrink(&hdrs, 1);
                break;
              default:
                http_zlib_reset(w);
                break;
            }
            break;

          default:
            break;
        }
    }

    if (chunked) {
        /* rfc 2616: §4.4: if chunked, then ignore any Content-Length */
        w->chunk_length = 0;
        w->state = HTTP_PARSER_CHUNK_HDR;
    } else {
        /* rfc 2616: §4.4: support no Content-Length */
        if (clen < 0 && req.code == HTTP_CODE_NO_CONTENT) {
            /* due to code 204 (No Content) */
            w->chunk_length = 0;
        } else {
            /* or followed by close */
            w->chunk_length = clen;
        }
        w->state = HTTP_PARSER_BODY;
    }
''', '''          case HTTP_WKHDR_CONTENT_ENCODING:
            {
                int tk = http_get_token_ps(qhdr->val);

                if (tk == HTTP_TK_DEFLATE || tk == HTTP_TK_GZIP
                ||  tk == HTTP_TK_X_GZIP)
                {
                    http_zlib_inflate_init(w);
                    qv_shrink(&hdrs, 1);
                } else {
                    http_zlib_reset(w);
                }
            }
            break;

          default:
            break;
        }
    }

    if (!chunked) {
        /* rfc 2616: §4.4: support no Content-Length */
        bool no_content = clen < 0 && req.code == HTTP_CODE_NO_CONTENT;

        w->state = HTTP_PARSER_BODY;
        w->chunk_length = no_content ? 0 : clen;
    } else {
        /* rfc 2616: §4.4: if chunked, then ignore any Content-Length */
        w->state = HTTP_PARSER_CHUNK_HDR;
        w->chunk_length = 0;
    }
'''))
r('http-1xx', 'src/net/http.c', ('''    if (req.code >= 100 && req.code < 200) {
        w->state = HTTP_PARSER_IDLE;
''', '''    if (100 <= req.code && req.code <= 199) {
        w->state = HTTP_PARSER_IDLE;
'''), ('''        if (req.http_version == HTTP_1_0) {
            return PARSE_ERROR;
        } else
        if (req.code != HTTP_CODE_CONTINUE) {
            return PARSE_OK;
        }

        if (q->expect100cont) {
            /* Temporary set''', '''        if (req.http_version == HTTP_1_0) {
            return PARSE_ERROR;
        }
        if (req.code != HTTP_CODE_CONTINUE) {
            return PARSE_OK;
        }

        if (q->expect100cont) {
            /* Temporary set'''), ('''    if (conn_close) {
        w->max_queries = 0;
        if (!w->busy) {
            obj_vcall(w, set_busy);
        }
        dlist_for_each_entry_continue(q, &w->query_list, query_link)
        {
            httpc_query_abort(q);
        }
        ob_wipe(&w->ob);
        ob_init(&w->ob);
    }

    return PARSE_OK;
''', '''    if (!conn_close) {
        return PARSE_OK;
    }
    w->max_queries = 0;
    if (!w->busy) {
        obj_vcall(w, set_busy);
    }
    dlist_for_each_entry_continue(q, &w->query_list, query_link) {
        httpc_query_abort(q);
    }
    ob_wipe(&w->ob);
    ob_init(&w->ob);

    return PARSE_OK;
'''))
r('hpack-enc-add', 'src/net/hpack.c', ('''void
hpack_enc_dtbl_add_hdr(hpack_enc_dtbl_t *dtbl, lstr_t key, lstr_t val,
''', '''static bool hpack_enc_dtbl_index(hpack_enc_dtbl_t *dtbl, uint32_t idx_key,
                                 uint32_t *old_idx)
{
    uint32_t pos = qm_reserve(hpack_insertion_idx, &dtbl->ins_idx, idx_key, 0);
    bool collides = !!(pos & QHASH_COLLISION);

    if (collides) {
        pos &= ~QHASH_COLLISION;
        *old_idx = dtbl->ins_idx.values[pos];
    }
    dtbl->ins_idx.values[pos] = dtbl->ins_cnt;
    return collides;
}

void
hpack_enc_dtbl_add_hdr(hpack_enc_dtbl_t *dtbl, lstr_t key, lstr_t val,
'''), ('''    pos = qm_reserve(hpack_insertion_idx, &dtbl->ins_idx, key_id, 0);
    if (pos & QHASH_COLLISION) {
        pos &= ~QHASH_COLLISION;
        ins_idx = dtbl->ins_idx.values[pos];
        hpack_enc_dtbl_get_ent_at_ins(dtbl, ins_idx)->mre_key = false;
    }
    dtbl->ins_idx.values[pos] = dtbl->ins_cnt;
    if (!val_id) {
        return;
    }
    pos = qm_reserve(hpack_insertion_idx, &dtbl->ins_idx,
                     key_id | val_id << 16u, 0);
    if (pos & QHASH_COLLISION) {
        pos &= ~QHASH_COLLISION;
        ins_idx = dtbl->ins_idx.values[pos];
        hpack_enc_dtbl_get_ent_at_ins(dtbl, ins_idx)->mre_val = false;
    }
    dtbl->ins_idx.values[pos] = dtbl->ins_cnt;
''', '''    if (hpack_enc_dtbl_index(dtbl, key_id, &ins_idx)) {
        hpack_enc_dtbl_get_ent_at_ins(dtbl, ins_idx)->mre_key = false;
    }
    if (val_id && hpack_enc_dtbl_index(dtbl, key_id | val_id << 16u, &ins_idx))
    {
        hpack_enc_dtbl_get_ent_at_ins(dtbl, ins_idx)->mre_val = false;
    }
'''), ('''    uint32_t pos;
    uint32_t ins_idx;
    hpack_enc_dtbl_entry_t e = {
''', '''    uint32_t ins_idx;
    hpack_enc_dtbl_entry_t e = {
'''))
r('per-len', 'src/asn1/per.c', ('''    if (!ctx->use_fragmentation) {
        if (ctx->extension_present) {
            aper_write_ulen(bb, ctx->len, &ctx->use_fragmentation);
        } else {
            aper_write_len(bb, ctx->len, ctx->min_root_len,
                           ctx->max_root_len, &ctx->use_fragmentation);
        }
        if (!ctx->use_fragmentation) {
            ctx->done = true;
            ctx->to_encode = ctx->len;
        }
    }
    if (ctx->use_fragmentation) {
        if (ctx->remains < PER_FRAG_16K) {
            aper_write_ulen(bb, ctx->remains, NULL);
            ctx->to_encode = ctx->remains;
            ctx->done = true;
        } else {
            int nb_16k_blocks;
            int to_encode;

            to_encode = MIN(ctx->remains, PER_FRAG_64K);
            nb_16k_blocks = to_encode / PER_FRAG_16K;
            to_encode = nb_16k_blocks * PER_FRAG_16K;
            ctx->to_encode = to_encode;

            bb_align(bb);
            bb_be_add_byte(bb, 0xc0 | nb_16k_blocks);
        }
    }
    ctx->remains -= ctx->to_encode;
''', '''    if (!ctx->use_fragmentation) {
        if (!ctx->extension_present) {
            aper_write_len(bb, ctx->len, ctx->min_root_len,
                           ctx->max_root_len, &ctx->use_fragmentation);
        } else {
            aper_write_ulen(bb, ctx->len, &ctx->use_fragmentation);
        }
        if (!ctx->use_fragmentation) {
            ctx->to_encode = ctx->len;
            ctx->done = true;
        }
    }
    if (ctx->use_fragmentation) {
        if (ctx->remains >= PER_FRAG_16K) {
            int blocks = MIN(ctx->remains, PER_FRAG_64K) / PER_FRAG_16K;

            ctx->to_encode = blocks * PER_FRAG_16K;
            bb_align(bb);
            bb_be_add_byte(bb, 0xc0 | blocks);
        } else {
            ctx->done = true;
            ctx->to_encode = ctx->remains;
            aper_write_ulen(bb, ctx->remains, NULL);
        }
    }
    ctx->remains -= ctx->to_encode;
'''))
r('qpe', 'src/core/str-buf-quoting.c', ('''        if (test_quoted_printable(c = src[i++]))
            continue;
        /* only encode '.' if at the beginning of a line */
        if (c == '.' && col)
            continue;
        /* encode spaces only at end on line */
        if (isblank(c)) {
            if (!(i + 2 <= len && !memcmp(src + i, "\\r\\n", 2)))
                continue;
        }
''', '''        c = src[i++];
        /* only encode '.' if at the beginning of a line */
        if (test_quoted_printable(c) || (c == '.' && col)) {
            continue;
        }
        /* encode spaces only at end on line */
        if (isblank(c)
        &&  (i + 2 > len || memcmp(src + i, "\\r\\n", 2) != 0))
        {
            continue;
        }
'''))
r('csv', 'src/core/str-buf-quoting.c', ('''    while (!ps_done(&ps)) {
        if (ps_get_ps_chr_and_skip(&ps, '"', &cspan) < 0) {
            sb_add_ps(sb, ps);
            break;
        }
        cspan.s_end++;
        sb_add_ps(sb, cspan);
        sb_addc(sb, '"');
    }

    sb_addc(sb, '"');
''', '''    for (;;) {
        if (ps_done(&ps)) {
            break;
        }
        if (ps_get_ps_chr_and_skip(&ps, '"', &cspan) >= 0) {
            cspan.s_end += 1;
            sb_add_ps(sb, cspan);
            sb_addc(sb, '"');
            continue;
        }
        sb_add_ps(sb, ps);
        break;
    }
    sb_addc(sb, '"');
'''))
r('ichttp-reply', 'src/iop/rpc-http-server.c', ('''void
__ichttp_reply(uint64_t slot, int cmd,''', '''static void ichttp_serialize(sb_t *out, ichttp_query_t *iq,
                             httpd_trigger__ic_t *tcb, int cmd,
                             const iop_struct_t *st, const void *v)
{
    if (!iq->json) {
        ichttp_serialize_soap(out, iq, cmd, st, v);
        return;
    }
    iop_jpack(st, v, iop_sb_write, out, tcb->jpack_flags);
    iq->iop_answered = true;
}

void
__ichttp_reply(uint64_t slot, int cmd,'''), ('''        t_sb_init(&buf, BUFSIZ);
        if (iq->json) {
            iop_jpack(st, v, iop_sb_write, &buf, tcb->jpack_flags);
            iq->iop_answered = true;
        } else {
            ichttp_serialize_soap(&buf, iq, cmd, st, v);
        }
        sb_add_compressed(out, buf.data, buf.len, Z_BEST_COMPRESSION, is_gzip);
    } else
    if (iq->json) {
        iop_jpack(st, v, iop_sb_write, out, tcb->jpack_flags);
        iq->iop_answered = true;
    } else {
        ichttp_serialize_soap(out, iq, cmd, st, v);
    }
''', '''        t_sb_init(&buf, BUFSIZ);
        ichttp_serialize(&buf, iq, tcb, cmd, st, v);
        sb_add_compressed(out, buf.data, buf.len, Z_BEST_COMPRESSION, is_gzip);
    } else {
        ichttp_serialize(out, iq, tcb, cmd, st, v);
    }
'''))
r('addr-parse', 'src/net/addr.c', ('''    int i;

    PS_WANT(ps_has(&ps, 1));
    if (ps.b[0] == '[') {
        __ps_skip(&ps, 1);
        PS_CHECK(ps_get_ps_chr(&ps, ']', host));
        __ps_skip(&ps, 1);
    } else {
        if (ps_get_ps_chr(&ps, ':', host) < 0) {
            *host = ps;
            ps.b  = ps.b_end;
            goto no_port;
        }
    }
    if (!ps_has(&ps, 1)) {
      no_port:
        *port = defport;
        return defport < 0 ? -1 : 0;
    }
    PS_WANT(__ps_getc(&ps) == ':');
    PS_WANT(ps_has(&ps, 1));
    i = ps_geti(&ps);
    if (i < minport || i > UINT16_MAX)
        return -1;
    *port = i;
    return ps_done(&ps) ? 0 : -1;
''', '''    bool has_port = true;
    int i;

    PS_WANT(ps_has(&ps, 1));
    if (ps.b[0] == '[') {
        __ps_skip(&ps, 1);
        PS_CHECK(ps_get_ps_chr(&ps, ']', host));
        __ps_skip(&ps, 1);
        has_port = ps_has(&ps, 1);
    } else
    if (ps_get_ps_chr(&ps, ':', host) < 0) {
        *host = ps;
        ps.b  = ps.b_end;
        has_port = false;
    }
    if (!has_port) {
        *port = defport;
        if (defport < 0) {
            return -1;
        }
        return 0;
    }
    PS_WANT(__ps_getc(&ps) == ':');
    PS_WANT(ps_has(&ps, 1));
    i = ps_geti(&ps);
    THROW_ERR_IF(i < minport || i > UINT16_MAX);
    *port = i;
    THROW_ERR_UNLESS(ps_done(&ps));
    return 0;
'''))
r('icmp', 'src/core/str-l.c', ('''    for (int i = 0; i < min; i++) {
        int a = tolower((unsigned char)s1.s[i]);
        int b = tolower((unsigned char)s2.s[i]);

        if (a != b) {
            return CMP(a, b);
        }
    }

    return CMP(s1.len, s2.len);
''', '''    int i = 0;

    while (i < min) {
        int a = tolower((unsigned char)s1.s[i]);
        int b = tolower((unsigned char)s2.s[i]);
        int cmp = CMP(a, b);

        if (cmp) {
            return cmp;
        }
        i++;
    }

    return CMP(s1.len, s2.len);
'''))
r('aes-cbc', 'src/crypto/aes.c', ('''    if (mode == AES_DECRYPT)
    {
        while (length > 0)
        {
            memcpy(temp, input, 16);
            aes_crypt_ecb(ctx, mode, input, output);

            for (i = 0; i < 16; i++)
                output[i] = (byte)(output[i] ^ iv[i]);

            memcpy(iv, temp, 16);

            input  += 16;
            output += 16;
            length -= 16;
        }
    }
    else
    {
        while (length > 0)
        {
            for (i = 0; i < 16; i++)
                output[i] = (byte)(input[i] ^ iv[i]);

            aes_crypt_ecb(ctx, mode, output, output);
            memcpy(iv, output, 16);

            input  += 16;
            output += 16;
            length -= 16;
        }
    }
''', '''    for (; length > 0; length -= 16, input += 16, output += 16) {
        if (mode == AES_DECRYPT) {
            memcpy(temp, input, 16);
            aes_crypt_ecb(ctx, mode, input, output);
            for (i = 0; i < 16; i++) {
                output[i] ^= iv[i];
            }
            memcpy(iv, temp, 16);
            continue;
        }
        for (i = 0; i < 16; i++) {
            output[i] = (byte)(input[i] ^ iv[i]);
        }
        aes_crypt_ecb(ctx, mode, output, output);
        memcpy(iv, output, 16);
    }
'''))
r('yaml-seq', 'src/core/yaml.c', ('''        last_indent = yaml_env_get_column_nb(env);
        if (last_indent < min_indent) {
            /* we go down on indent, so the seq is over */
            break;
        }
        if (last_indent > min_indent) {
            return yaml_env_set_err(env, YAML_ERR_WRONG_INDENT,
                                    "line not aligned with current sequence");
        } else
        if (!ps_startswith_yaml_seq_prefix(&env->ps)) {
            /* tricky case where the next field has the same indentation as
             * the sequence */
            break;
        }
    }

    yaml_env_end_data(env, out);
    out->seq = t_new(yaml_seq_t, 1);
    out->seq->datas = datas;
    out->seq->pres_nodes = pres;

    return 0;
''', '''        last_indent = yaml_env_get_column_nb(env);
        if (last_indent > min_indent) {
            return yaml_env_set_err(env, YAML_ERR_WRONG_INDENT,
                                    "line not aligned with current sequence");
        }
        /* either the indent goes down, and the seq is over, or the next field
         * has the same indentation as the sequence. */
        if (last_indent < min_indent
        ||  !ps_startswith_yaml_seq_prefix(&env->ps))
        {
            break;
        }
    }

    {
        yaml_seq_t *seq = t_new(yaml_seq_t, 1);

        yaml_env_end_data(env, out);
        seq->pres_nodes = pres;
        seq->datas = datas;
        out->seq = seq;
    }

    return 0;
'''))
r('yaml-ltrim', 'src/core/yaml.c', ('''        int c = ps_peekc(env->ps);

        if (c == '#') {
            if (!in_comment) {
                in_comment = true;
                comment_ps = env->ps;
            }
        } else
        if (c == '\\n') {
            if (env->pos_newline == env->ps.s) {
                /* Two \\n in a row, indicating an empty line. Save this
                 * is the presentation data. */
                t_yaml_env_pres_add_empty_line(env);
            }
            env->line_number++;
            env->pos_newline = env->ps.s + 1;
            in_comment = false;
            if (comment_ps.s != NULL) {
                t_yaml_env_handle_comment_ps(env, comment_ps, in_new_line,
                                             &prefix_comments);
                comment_ps.s = NULL;
            }
            in_new_line = true;
        } else
        if (c == '\\t') {
            return yaml_env_set_err(env, YAML_ERR_TAB_CHARACTER,
                                    "cannot use tab characters for "
                                    "indentation");
        } else
        if (!isspace(c) && !in_comment) {
            break;
        }
        yaml_env_skipc(env);
    }
''', '''        int c = ps_peekc(env->ps);
        bool stop = false;

        switch (c) {
          case '\\t':
            return yaml_env_set_err(env, YAML_ERR_TAB_CHARACTER,
                                    "cannot use tab characters for "
                                    "indentation");

          case '#':
            if (!in_comment) {
                comment_ps = env->ps;
                in_comment = true;
            }
            break;

          case '\\n':
            if (env->pos_newline == env->ps.s) {
                /* Two \\n in a row, indicating an empty line. Save this
                 * is the presentation data. */
                t_yaml_env_pres_add_empty_line(env);
            }
            env->pos_newline = env->ps.s + 1;
            env->line_number++;
            if (comment_ps.s != NULL) {
                t_yaml_env_handle_comment_ps(env, comment_ps, in_new_line,
                                             &prefix_comments);
                comment_ps.s = NULL;
            }
            in_comment = false;
            in_new_line = true;
            break;

          default:
            stop = !isspace(c) && !in_comment;
            break;
        }
        if (stop) {
            break;
        }
        yaml_env_skipc(env);
    }
'''))
r('pkg-path', 'src/iopc/iopc-parser.c', ('''    if (stat(get_full_path(buf), &st1)) {
        throw_loc("incorrect package name", path->loc);
    }
    if (fstat(fd, &st2)) {
        throw_loc("fstat error on fd %d", path->loc, fd);
    }
    if (st1.st_dev != st2.st_dev || st1.st_ino != st2.st_ino) {
        throw_loc("incorrect package name", path->loc);
    }

    return 0;
''', '''    if (stat(get_full_path(buf), &st1) != 0) {
        throw_loc("incorrect package name", path->loc);
    }
    if (fstat(fd, &st2) != 0) {
        throw_loc("fstat error on fd %d", path->loc, fd);
    }
    if (st1.st_dev == st2.st_dev && st1.st_ino == st2.st_ino) {
        return 0;
    }
    throw_loc("incorrect package name", path->loc);
'''))
r('qhat-lookup', 'src/core/qps-hat.c', ('''    uint32_t count = header->count - from;

    if (count == 0 || key > header->keys[header->count - 1]) {
        return header->count;
    } else
    if (count < 32) {
        for (uint32_t i = from; i < header->count; i++) {
            if (header->keys[i] >= key) {
                return i;
            }
        }
        return header->count;
    }
    return from + bisect32(key, header->keys + from, count, NULL);
''', '''    const uint32_t end = header->count;
    uint32_t count = end - from;
    uint32_t i;

    if (!count) {
        return end;
    }
    if (header->keys[end - 1] < key) {
        return end;
    }
    if (count >= 32) {
        return from + bisect32(key, header->keys + from, count, NULL);
    }
    i = from;
    while (i < end && header->keys[i] < key) {
        i++;
    }
    return i;
'''))
r('fifo-free', 'src/core/mem-fifo.c', ('''static void mfp_free(mem_pool_t *_mfp, void *mem)
{
''', '''static void mfp_recycle_page(mem_fifo_pool_t *mfp, mem_page_t *page)
{
    mem_page_t *cur = mfp->current;

    if (!mfp->freepage) {
        mem_page_reset(page);
        mfp->freepage = page;
        return;
    }
    if (page->size > 8 * (cur->size - cur->used_size)) {
        if (cur->used_blocks == 0) {
            mem_page_delete(mfp, &mfp->current);
        }
        mem_page_reset(page);
        mfp->current = page;
        return;
    }
    if (page->size <= mfp->freepage->size) {
        mem_page_delete(mfp, &page);
        return;
    }
    mem_page_delete(mfp, &mfp->freepage);
    mem_page_reset(page);
    mfp->freepage = page;
}

static void mfp_free(mem_pool_t *_mfp, void *mem)
{
'''), ('''        /* keep the page around if we have none kept around yet */
        if (mfp->freepage) {
            /* if the current page is almost full, better replace the current
             * by this one than deleting it and wasting the freepage soon
             */
            if (page->size >
                8 * (mfp->current->size - mfp->current->used_size))
            {
                if (mfp->current->used_blocks == 0) {
                    mem_page_delete(mfp, &mfp->current);
                }
                mem_page_reset(page);
                mfp->current = page;
            } else
            if (mfp->freepage->size >= page->size) {
                mem_page_delete(mfp, &page);
            } else {
                mem_page_delete(mfp, &mfp->freepage);
                mem_page_reset(page);
                mfp->freepage = page;
            }
        } else {
            mem_page_reset(page);
            mfp->freepage = page;
        }
''', '''        mfp_recycle_page(mfp, page);
'''))
r('page-delete', 'src/core/mem-fifo.c', ('''    if (page) {
#ifdef MEM_BENCH
        mfp->mem_bench.current_allocated -= page->size + sizeof(mem_page_t);
        mem_bench_update(&mfp->mem_bench);
        mem_bench_print_csv(&mfp->mem_bench);
#endif

        mfp->nb_pages--;
        mfp->map_size -= page->size + sizeof(mem_page_t);
        mem_tool_allow_memory(page, page->size + sizeof(mem_page_t), true);
        p_delete(pagep);
    }
''', '''    size_t full_size;

    if (!page) {
        return;
    }
    full_size = page->size + sizeof(mem_page_t);
#ifdef MEM_BENCH
    mfp->mem_bench.current_allocated -= full_size;
    mem_bench_update(&mfp->mem_bench);
    mem_bench_print_csv(&mfp->mem_bench);
#endif

    mfp->map_size -= full_size;
    mfp->nb_pages--;
    mem_tool_allow_memory(page, full_size, true);
    p_delete(pagep);
'''))
r('stack-next-blk', 'src/core/mem-stack.c', ('''        size_t needed_size = size;
        uint8_t *aligned_area;

        aligned_area = (uint8_t *)mem_align_ptr((uintptr_t)blk->area, alignment);
        needed_size += aligned_area - blk->area;

        if (blk->size >= needed_size) {
            return blk;
        }

        /* bound deleted size by created size */
        if (deleted_size >= needed_size) {
            break;
        }

        deleted_size += blk->size;
        blk_destroy(sp, blk);
''', '''        uint8_t *aligned_area;
        size_t needed_size, blk_size = blk->size;

        aligned_area = (uint8_t *)mem_align_ptr((uintptr_t)blk->area, alignment);
        needed_size = size + (aligned_area - blk->area);

        if (needed_size <= blk_size) {
            return blk;
        }

        /* bound deleted size by created size */
        if (needed_size <= deleted_size) {
            break;
        }

        blk_destroy(sp, blk);
        deleted_size += blk_size;
'''))
r('dso-register', 'src/iop/dso.c', ('''    if (!dso->is_registered) {
        iop_env_t env;
        iop_pkg_t **pkgp = dlsym(dso->handle, "iop_packages");

        if (!pkgp) {
            /* This should not happen because this was checked before. */
            e_panic("IOP DSO: iop_packages not found when registering DSO");
        }
        qm_clear(iop_pkg, &dso->pkg_h);
        iop_env_get(&env);
        while (*pkgp) {
            if (iopdso_register_pkg(dso, *pkgp++, &env, err) < 0) {
                iop_env_wipe(&env);
                return -1;
            }
        }
''', '''    if (!dso->is_registered) {
        iop_env_t env;
        iop_pkg_t **pkgs = dlsym(dso->handle, "iop_packages");

        if (pkgs == NULL) {
            /* This should not happen because this was checked before. */
            e_panic("IOP DSO: iop_packages not found when registering DSO");
        }
        iop_env_get(&env);
        qm_clear(iop_pkg, &dso->pkg_h);
        for (int i = 0; pkgs[i]; i++) {
            int res = iopdso_register_pkg(dso, pkgs[i], &env, err);

            if (res >= 0) {
                continue;
            }
            iop_env_wipe(&env);
            return -1;
        }
'''))
r('wah-get', 'src/core/bit-wah.c', ('''    if (pos >= map->len) {
        return false;
    }
    if (pos >= map->len - remain) {
        pos %= WAH_BIT_IN_WORD;
        return map->_pending & (1 << pos);
    }

    bucket = &map->_buckets.tab[pos / _G.bits_in_bucket];
    pos %= _G.bits_in_bucket;

    while (i < bucket->len) {
        wah_header_t head  = bucket->tab[i++].head;
        uint32_t     words = bucket->tab[i++].count;

        count = head.words * WAH_BIT_IN_WORD;
        if (pos < count) {
            return !!head.bit;
        }
        pos -= count;

        count = words * WAH_BIT_IN_WORD;
        if (pos < count) {
            i   += pos / WAH_BIT_IN_WORD;
            pos %= WAH_BIT_IN_WORD;
            return !!(bucket->tab[i].literal & (1 << pos));
        }
        pos -= count;
        i   += words;
    }
''', '''    if (pos >= map->len) {
        return false;
    }
    if (pos + remain >= map->len) {
        return map->_pending & (1 << (pos % WAH_BIT_IN_WORD));
    }

    bucket = &map->_buckets.tab[pos / _G.bits_in_bucket];
    pos = pos % _G.bits_in_bucket;

    for (; i < bucket->len; ) {
        wah_header_t head  = bucket->tab[i].head;
        uint32_t     words = bucket->tab[i + 1].count;

        i += 2;
        count = head.words * WAH_BIT_IN_WORD;
        if (pos < count) {
            return head.bit != 0;
        }
        pos -= count;

        count = words * WAH_BIT_IN_WORD;
        if (pos >= count) {
            pos -= count;
            i   += words;
            continue;
        }
        i += pos / WAH_BIT_IN_WORD;
        return (bucket->tab[i].literal & (1 << (pos % WAH_BIT_IN_WORD))) != 0;
    }
'''))
r('asn1-choice', 'src/asn1/writer.c', ('''    tag = *ps->b;

    if (!(choice = asn1_find_choice(desc, tag))) {
        e_trace(1, "no choice element: tag mismatch");
        return -1;
    }

    spec = &desc->desc.fields.tab[choice];
    __asn1_set_int(st, selector_spec, choice);
    e_trace_desc(1, "unpacking", &desc->desc, choice, depth);
    RETHROW(asn1_unpack_field(ps, spec, mem_pool, depth, st, copy,
                              indef_len));

    return 0;
''', '''    tag = ps->b[0];
    choice = asn1_find_choice(desc, tag);
    if (choice == 0) {
        e_trace(1, "no choice element: tag mismatch");
        return -1;
    }

    __asn1_set_int(st, selector_spec, choice);
    spec = &desc->desc.fields.tab[choice];
    e_trace_desc(1, "unpacking", &desc->desc, choice, depth);
    if (asn1_unpack_field(ps, spec, mem_pool, depth, st, copy,
                          indef_len) < 0)
    {
        return -1;
    }
    return 0;
'''))
r('cfolder', 'src/iop/cfolder.c', ('''    iop_cfolder_elem_t elem;
    cf_elem_init(&elem);

    if (cf_get_last_type(&folder->stack) == CF_ELEM_NUMBER)
        return CF_ERR(INVALID, "there is already a number on the stack");

    elem.type      = CF_ELEM_NUMBER;
    elem.num       = num;
    elem.is_signed = is_signed && SIGNED(num) < 0;

    cf_stack_push(&folder->stack, elem);
    return CF_OK;
''', '''    iop_cfolder_elem_t elem;
    bool negative = (int64_t)num < 0;

    if (cf_get_last_type(&folder->stack) == CF_ELEM_NUMBER) {
        return CF_ERR(INVALID, "there is already a number on the stack");
    }

    cf_elem_init(&elem);
    elem.num       = num;
    elem.type      = CF_ELEM_NUMBER;
    elem.is_signed = negative && is_signed;
    cf_stack_push(&folder->stack, elem);

    return CF_OK;
'''))
r('path-simplify', 'src/core/str-path.c', ('''                if (atoms) {
                    atoms--;
                    out--;
                    while (out > start && out[-1] != '/')
                        out--;
                } else {
                    if (!absolute) {
                        out = mempcpy(out, "..", 2);
                        if (*in)
                            *out++ = '/';
                    }
                }
                continue;
''', '''                if (!atoms) {
                    if (absolute) {
                        continue;
                    }
                    out = mempcpy(out, "..", 2);
                    if (*in) {
                        *out++ = '/';
                    }
                    continue;
                }
                atoms--;
                for (out--; out > start; out--) {
                    if (out[-1] == '/') {
                        break;
                    }
                }
                continue;
'''))
r('file-seek', 'src/core/file.c', ('''    res = lseek(f->fd, offset, whence);
    if (res != (off_t)-1) {
        f->wpos = res;
    }
    return res;
''', '''    res = lseek(f->fd, offset, whence);
    if (res == (off_t)-1) {
        return -1;
    }
    return f->wpos = res;
'''), ('''    sb_addc(&f->obuf, c);
    if (c == '\\n' || f->obuf.len > BUFSIZ) {
        RETHROW(file_flush(f));
    }
    return 0;
''', '''    sb_addc(&f->obuf, c);
    if (c != '\\n' && f->obuf.len <= BUFSIZ) {
        return 0;
    }
    return RETHROW(file_flush(f)) < 0 ? -1 : 0;
'''))
r('file-writev', 'src/core/file.c', ('''static ssize_t __file_writev(file_t *f, struct iovec *iov, size_t iovcnt)
{
    size_t oldcnt = iovcnt;
    size_t len = 0;
    ssize_t res = 0;

    for (size_t i = 0; i < iovcnt; i++) {
        len += iov[i].iov_len;
    }
    res = len;
''', '''static size_t iovec_total_len(const struct iovec *iov, size_t iovcnt)
{
    size_t len = 0;

    while (iovcnt > 0) {
        len += iov->iov_len;
        iov++;
        iovcnt--;
    }
    return len;
}

static ssize_t __file_writev(file_t *f, struct iovec *iov, size_t iovcnt)
{
    const size_t oldcnt = iovcnt;
    size_t len = iovec_total_len(iov, iovcnt);
    ssize_t res = len;

'''), ('''        if (resv < 0) {
            if (!ERR_RW_RETRIABLE(errno)) {
                res = -1;
                break;
            }
        } else {
            f->wpos += resv;
            len     -= resv;
            while (resv > 0) {
                if (iov[0].iov_len > (size_t)resv) {
                    iov->iov_base = (char *)iov->iov_base + resv;
                    iov->iov_len -= resv;
                    break;
                }
                resv -= iov[0].iov_len;
                iov++;
                iovcnt--;
            }
        }
''', '''        if (resv < 0) {
            if (ERR_RW_RETRIABLE(errno)) {
                continue;
            }
            res = -1;
            break;
        }

        len     -= resv;
        f->wpos += resv;
        for (; resv > 0; iov++, iovcnt--) {
            if ((size_t)resv < iov->iov_len) {
                iov->iov_len -= resv;
                iov->iov_base = (char *)iov->iov_base + resv;
                break;
            }
            resv -= iov->iov_len;
        }
'''), ('''    if (f->obuf.len) {
        if (iovcnt < oldcnt) {
            sb_reset(&f->obuf);
        } else
        if (iovcnt == oldcnt) {
''', '''    if (f->obuf.len) {
        if (iovcnt != oldcnt) {
            sb_reset(&f->obuf);
        } else {
'''))
r('file-truncate', 'src/core/file.c', ('''int file_truncate(file_t *f, off_t len)
{
    if (len < f->wpos) {
        RETHROW(ftruncate(f->fd, len));
        RETHROW(lseek(f->fd, len, SEEK_SET));
        f->wpos = len;
        sb_reset(&f->obuf);
    } else if (len <= f->wpos + f->obuf.len) {
        sb_clip(&f->obuf, len - f->wpos);
    } else { /* len > f->wpos + f->obuf.len */
        if (len - f->wpos > BUFSIZ) {
            /* Buffer would be too big: flush */
            RETHROW(file_flush(f));
            RETHROW(ftruncate(f->fd, len));
            RETHROW(lseek(f->fd, len, SEEK_SET));
            f->wpos = len;
        } else {
            sb_add0s(&f->obuf, len - (f->wpos + f->obuf.len));
        }
    }

    return 0;
}
''', '''static int file_truncate_fd(file_t *f, off_t len)
{
    RETHROW(ftruncate(f->fd, len));
    RETHROW(lseek(f->fd, len, SEEK_SET));
    f->wpos = len;
    return 0;
}

int file_truncate(file_t *f, off_t len)
{
    off_t end = file_tell(f);

    if (len < f->wpos) {
        RETHROW(file_truncate_fd(f, len));
        sb_reset(&f->obuf);
        return 0;
    }
    if (len <= end) {
        sb_clip(&f->obuf, len - f->wpos);
        return 0;
    }
    if (len - f->wpos <= BUFSIZ) {
        sb_add0s(&f->obuf, len - end);
        return 0;
    }
    /* Buffer would be too big: flush */
    RETHROW(file_flush(f));
    return file_truncate_fd(f, len);
}
'''))
r('tmpfile', 'src/core/file.c', ('''    ret = xwrite(fd, data, len);
    if (ret < 0) {
        PROTECT_ERRNO(p_close(&fd));
    } else {
        ret = p_close(&fd);
    }

    if (ret < 0) {
        sb_setf(err, "failed to write data in temporary file `%s`: %m",
                file_path);
        unlink(file_path);
        return -1;
    }

    return 0;
''', '''    ret = xwrite(fd, data, len);
    if (ret >= 0) {
        ret = p_close(&fd);
        if (ret >= 0) {
            return 0;
        }
    } else {
        PROTECT_ERRNO(p_close(&fd));
    }

    sb_setf(err, "failed to write data in temporary file `%s`: %m",
            file_path);
    unlink(file_path);
    return -1;
'''))
r('fb-nextoff', 'src/core/file-bin.c', ('''    off_t res = file_bin_get_entry_end_off(f, d_len);
    uint32_t remaining = 0;

    if (res % f->slot_size) {
        remaining = f->slot_size - (res % f->slot_size);
    }
    /* else it means res is exactly at the end of a slot so remaining is 0 */

    if (remaining < RC_HDR_SIZE) {
''', '''    off_t res = file_bin_get_entry_end_off(f, d_len);
    uint32_t used = res % f->slot_size;
    uint32_t remaining = used ? f->slot_size - used : 0;

    if (RC_HDR_SIZE > remaining) {
'''), ('''    if (!file->map) {
        parse_header = true;
        new_map = mmap(NULL, st.st_size, PROT_READ,
                       MAP_SHARED, fileno(file->f), 0);
    }
''', '''    parse_header = !file->map;
    if (parse_header) {
        new_map = mmap(NULL, st.st_size, PROT_READ,
                       MAP_SHARED, fileno(file->f), 0);
    }
'''), ('''    if (parse_header
    &&  file_bin_parse_header(file->path, new_map, st.st_size,
                              &file->version, &file->slot_size) < 0)
    {
        munmap(new_map, st.st_size);
        return -1;
    }

    file->map = new_map;
    file->length = st.st_size;
''', '''    if (parse_header) {
        int res = file_bin_parse_header(file->path, new_map, st.st_size,
                                        &file->version, &file->slot_size);

        if (res < 0) {
            munmap(new_map, st.st_size);
            return res;
        }
    }

    file->length = st.st_size;
    file->map = new_map;
'''))
r('qb-get', 'src/core/qps-bitmap.c', ('''    qps_hptr_deref(map->qps, &map->root_cache);
    dispatch_node = map->root->roots[key.root];
    if (dispatch_node == QPS_HANDLE_NULL) {
        return map->root->is_nullable ? QPS_BITMAP_NULL : QPS_BITMAP_0;
    }

    dispatch  = qps_pg_deref(map->qps, dispatch_node);
    leaf_node = (*dispatch)[key.dispatch].node;
    if (leaf_node == 0) {
        return map->root->is_nullable ? QPS_BITMAP_NULL : QPS_BITMAP_0;
    }

    leaf = qps_pg_deref(map->qps, leaf_node);
    if (map->root->is_nullable) {
        uint64_t word = leaf[key.word_null];
        word >>= (key.bit_null * 2);
        if (!(word & 0x2)) {
            return QPS_BITMAP_NULL;
        }
        return (qps_bitmap_state_t)(word & 0x1);
    } else {
        uint64_t word = leaf[key.word];
        word >>= key.bit;
        return (qps_bitmap_state_t)(word & 0x1);
    }
''', '''    qps_bitmap_state_t absent;

    qps_hptr_deref(map->qps, &map->root_cache);
    absent = map->root->is_nullable ? QPS_BITMAP_NULL : QPS_BITMAP_0;
    dispatch_node = map->root->roots[key.root];
    if (dispatch_node == QPS_HANDLE_NULL) {
        return absent;
    }

    dispatch  = qps_pg_deref(map->qps, dispatch_node);
    leaf_node = (*dispatch)[key.dispatch].node;
    if (!leaf_node) {
        return absent;
    }

    leaf = qps_pg_deref(map->qps, leaf_node);
    if (!map->root->is_nullable) {
        return (qps_bitmap_state_t)((leaf[key.word] >> key.bit) & 0x1);
    } else {
        uint64_t word = leaf[key.word_null] >> (key.bit_null * 2);

        return (word & 0x2) ? (qps_bitmap_state_t)(word & 0x1)
                            : QPS_BITMAP_NULL;
    }
'''))
r('qb-set', 'src/core/qps-bitmap.c', ('''        word >>= (key.bit_null * 2);
        if (!(word & 0x2)) {
            word = (UINT64_C(0x3) << (key.bit_null * 2));
            leaf[key.word_null] |= word;
            (*dispatch)[key.dispatch].active_bits++;
            return QPS_BITMAP_NULL;
        } else
        if (!(word & 0x1)) {
            word = (UINT64_C(0x3) << (key.bit_null * 2));
            leaf[key.word_null] |= word;
            return QPS_BITMAP_0;
        }
        return QPS_BITMAP_1;
''', '''        const uint64_t set_bits = UINT64_C(0x3) << (key.bit_null * 2);

        word >>= (key.bit_null * 2);
        if ((word & 0x2) && (word & 0x1)) {
            return QPS_BITMAP_1;
        }
        leaf[key.word_null] |= set_bits;
        if (word & 0x2) {
            return QPS_BITMAP_0;
        }
        (*dispatch)[key.dispatch].active_bits++;
        return QPS_BITMAP_NULL;
'''))
r('qb-delleaf', 'src/core/qps-bitmap.c', ('''static
void delete_leaf(qps_bitmap_t *map, qps_bitmap_key_t key)
{
''', '''static bool dispatch_is_empty(const qps_bitmap_dispatch_t *dispatch)
{
    for (int i = 0; i < QPS_BITMAP_DISPATCH; i++) {
        if ((*dispatch)[i].node != 0) {
            return false;
        }
    }
    return true;
}

static
void delete_leaf(qps_bitmap_t *map, qps_bitmap_key_t key)
{
'''), ('''    (*dispatch)[key.dispatch].node = 0;
    for (int i = 0; i < QPS_BITMAP_DISPATCH; i++) {
        if ((*dispatch)[i].node != 0) {
            return;
        }
    }
    qps_hptr_w_deref(map->qps, &map->root_cache);
    qps_pg_unmap(map->qps, map->root->roots[key.root]);
    map->root->roots[key.root] = 0;
''', '''    (*dispatch)[key.dispatch].node = 0;
    if (dispatch_is_empty(dispatch)) {
        qps_bitmap_node_t node;

        qps_hptr_w_deref(map->qps, &map->root_cache);
        node = map->root->roots[key.root];
        map->root->roots[key.root] = 0;
        qps_pg_unmap(map->qps, node);
    }
'''))
r('log-refresh', 'src/core/log.c', ('''    if (logger->defined_level >= 0) {
        logger->level = logger->defined_level;
    } else
    if (logger->parent) {
        if (logger->parent->level_flags & (LOG_FORCED | LOG_RECURSIVE)) {
            logger->level = logger->parent->level;
            logger->level_flags |= LOG_FORCED;
        } else
        if (logger->level == LOG_INHERITS) {
            logger->level = logger->parent->level;
        }
    }
''', '''    if (logger->defined_level >= 0) {
        logger->level = logger->defined_level;
    } else
    if (logger->parent) {
        const logger_t *parent = logger->parent;
        bool forced = parent->level_flags & (LOG_FORCED | LOG_RECURSIVE);

        if (forced) {
            logger->level_flags |= LOG_FORCED;
        }
        if (forced || logger->level == LOG_INHERITS) {
            logger->level = parent->level;
        }
    }
'''))
r('log-byname', 'src/core/log.c', ('''logger_t *logger_get_by_name(lstr_t name)
{
''', '''static logger_t *logger_find_child(logger_t *logger, lstr_t name)
{
    dlist_for_each_entry(logger_t, child, &logger->children, siblings) {
        if (lstr_equal(child->name, name)) {
            return child;
        }
    }
    return NULL;
}

logger_t *logger_get_by_name(lstr_t name)
{
'''), ('''        logger_t *next  = NULL;
        pstream_t n;
''', '''        pstream_t n;
'''), ('''        dlist_for_each_entry(logger_t, child, &logger->children, siblings) {
            if (lstr_equal(child->name, LSTR_PS_V(&n))) {
                next = child;
                break;
            }
        }

        RETHROW_P(next);
        logger = next;
''', '''        logger = logger_find_child(logger, LSTR_PS_V(&n));
        if (!logger) {
            return NULL;
        }
'''))
r('log-buffering', 'src/core/log.c', ('''        buff = &log_thr_g.vec_buff_stack.tab[log_thr_g.nb_buffer_started - 1];
        if (!buff->use_handler) {
            use_handler = false;
        }
    }
''', '''        buff = &log_thr_g.vec_buff_stack.tab[log_thr_g.nb_buffer_started - 1];
        use_handler = use_handler && buff->use_handler;
    }
'''), ('''    buffer_instance->use_handler = use_handler;
    buffer_instance->buffer_log_level = log_level;

    mem_stack_pool_push(&log_thr_g.mp_stack);
    log_thr_g.nb_buffer_started++;
''', '''    buffer_instance->buffer_log_level = log_level;
    buffer_instance->use_handler = use_handler;

    log_thr_g.nb_buffer_started++;
    mem_stack_pool_push(&log_thr_g.mp_stack);
'''))
r('log-putv', 'src/core/log.c', ('''static __attr_printf__(3, 0)
void logger_putv(const log_ctx_t *ctx, bool do_log,
''', '''static __attr_printf__(2, 0)
void logger_call_handler(const log_ctx_t *ctx, const char *fmt, va_list va)
{
    va_list vc;

    va_copy(vc, va);
    (*_G.handler)(ctx, fmt, vc);
    va_end(vc);
}

static __attr_printf__(3, 0)
void logger_putv(const log_ctx_t *ctx, bool do_log,
'''), ('''    if (!log_thr_g.nb_buffer_started) {
        va_copy(vc, va);
        (*_G.handler)(ctx, fmt, vc);
        va_end(vc);
        return;
    }

    buff = &log_thr_g.vec_buff_stack.tab[log_thr_g.nb_buffer_started - 1];

    if (ctx->level <= buff->buffer_log_level) {
''', '''    if (log_thr_g.nb_buffer_started == 0) {
        logger_call_handler(ctx, fmt, va);
        return;
    }

    buff = &log_thr_g.vec_buff_stack.tab[log_thr_g.nb_buffer_started - 1];
    if (ctx->level > buff->buffer_log_level) {
        return;
    }

    {
'''), ('''        if (buff->use_handler) {
            va_copy(vc, va);
            (*_G.handler)(ctx, fmt, vc);
            va_end(vc);
        }
''', '''        if (buff->use_handler) {
            logger_call_handler(ctx, fmt, va);
        }
'''))
r('sp-realloc', 'src/core/mem-stack.c', ('''    if (unlikely(sp->alloc_nb >= UINT16_MAX)) {
        STATIC_ASSERT (MEM_ALLOC_MAX * UINT16_MAX < SIZE_MAX);

        sp->alloc_sz /= 4;
        sp->alloc_nb /= 4;
    }
    sp->alloc_sz += asked;
    sp->alloc_nb += 1;
''', '''    if (unlikely(sp->alloc_nb >= UINT16_MAX)) {
        STATIC_ASSERT (MEM_ALLOC_MAX * UINT16_MAX < SIZE_MAX);

        sp->alloc_nb >>= 2;
        sp->alloc_sz >>= 2;
    }
    sp->alloc_nb++;
    sp->alloc_sz += asked;
'''), ('''        if (likely(sizediff >= 0)) {
            mem_tool_allow_memory(res + oldsize, sizediff, false);

            if (!(flags & MEM_RAW)) {
                p_clear(res + oldsize, sizediff);
            }
        } else {
            mem_tool_disallow_memory(res + asked, -sizediff);
            if (!asked) {
                res = MEM_EMPTY_ALLOC;
            }
        }
''', '''        if (unlikely(sizediff < 0)) {
            mem_tool_disallow_memory(res + asked, -sizediff);
            res = asked ? res : MEM_EMPTY_ALLOC;
        } else {
            mem_tool_allow_memory(res + oldsize, sizediff, false);

            if (!(flags & MEM_RAW)) {
                memset(res + oldsize, 0, sizediff);
            }
        }
'''))
r('addr-parse', 'src/net/addr.c', ('''        if (ps_get_ps_chr(&ps, ':', host) < 0) {
            *host = ps;
            ps.b  = ps.b_end;
            goto no_port;
        }
    }
    if (!ps_has(&ps, 1)) {
      no_port:
        *port = defport;
        return defport < 0 ? -1 : 0;
    }
''', '''        if (ps_get_ps_chr(&ps, ':', host) < 0) {
            *host = ps;
            ps.b  = ps.b_end;
        }
    }
    if (ps_done(&ps)) {
        *port = defport;
        if (defport < 0) {
            return -1;
        }
        return 0;
    }
'''), ('''    if (i < minport || i > UINT16_MAX)
        return -1;
    *port = i;
    return ps_done(&ps) ? 0 : -1;
''', '''    if (!(minport <= i && i <= UINT16_MAX)) {
        return -1;
    }
    *port = i;
    if (!ps_done(&ps)) {
        return -1;
    }
    return 0;
'''))
r('addr-info', 'src/net/addr.c', ('''    for (cur = ai; cur != NULL; cur = cur->ai_next) {
        switch (cur->ai_family) {
          case AF_INET:
          case AF_INET6:
          case AF_UNIX:
            if (cur->ai_addrlen > ssizeof(*su)) {
                continue;
            }
            break;

          default:

            continue;
        }
        break;
    }

    if (cur) {
        memcpy(su, cur->ai_addr, cur->ai_addrlen);
        sockunion_setport(su, port);
    }
    freeaddrinfo(ai);
    return cur ? 0 : -1;
''', '''    for (cur = ai; cur; cur = cur->ai_next) {
        bool known = cur->ai_family == AF_INET || cur->ai_family == AF_INET6
                  || cur->ai_family == AF_UNIX;

        if (known && cur->ai_addrlen <= ssizeof(*su)) {
            break;
        }
    }

    if (!cur) {
        freeaddrinfo(ai);
        return -1;
    }

    memcpy(su, cur->ai_addr, cur->ai_addrlen);
    sockunion_setport(su, port);
    freeaddrinfo(ai);
    return 0;
'''))
r('addr-resolve', 'src/net/addr.c', ('''int addr_resolve2(const char * nonnull what, const lstr_t s,
''', '''static int addr_resolve_error(sb_t * nullable err, const char *action,
                              const char *what, lstr_t s)
{
    if (err) {
        sb_addf(err, "unable to %s %s address `%*pM`", action, what,
                LSTR_FMT_ARG(s));
    }
    return -1;
}

int addr_resolve2(const char * nonnull what, const lstr_t s,
'''), ('''    {
        if (err) {
            sb_addf(err, "unable to parse %s address `%*pM`",
                    what, LSTR_FMT_ARG(s));
        }
        return -1;
    }
    if (addr_info(out_su, AF_UNSPEC, host, port) < 0) {
        if (err) {
            sb_addf(err, "unable to resolve %s address `%*pM`",
                    what, LSTR_FMT_ARG(s));
        }
        return -1;
    }
''', '''    {
        return addr_resolve_error(err, "parse", what, s);
    }
    if (addr_info(out_su, AF_UNSPEC, host, port) < 0) {
        return addr_resolve_error(err, "resolve", what, s);
    }
'''))
r('sb-splice', 'src/core/str-buf.c', ('''    assert (pos >= 0 && rm_len >= 0 && insert_len >= 0);
    assert (pos <= sb->len && pos + rm_len <= sb->len);

    if (rm_len >= insert_len) {
''', '''    const int delta = insert_len - rm_len;

    assert (pos >= 0 && rm_len >= 0 && insert_len >= 0);
    assert (pos <= sb->len && pos + rm_len <= sb->len);

    if (delta <= 0) {
'''), ('''        sb->skip -= insert_len - rm_len;
        sb->data -= insert_len - rm_len;
        sb->size += insert_len - rm_len;
        sb->len  += insert_len - rm_len;
        p_move2(sb->data, 0, insert_len - rm_len, pos);
''', '''        sb->len  += delta;
        sb->size += delta;
        sb->skip -= delta;
        sb->data -= delta;
        p_move2(sb->data, 0, delta, pos);
'''), ('''        sb_grow(sb, insert_len - rm_len);
''','''        sb_grow(sb, delta);
'''))
r('sb-grow', 'src/core/str-buf.c', ('''    newsz = p_alloc_nr(sb->size + sb->skip);
    if (newsz < newlen + 1) {
        newsz = newlen + 1;
    }
''', '''    newsz = MAX((int)p_alloc_nr(sb->size + sb->skip), newlen + 1);
'''), ('''    if (len <= sb_avail(sb)) {
        __sb_fixlen(sb, sb->len + len);
    } else {
        ivsnprintf(sb_growlen(sb, len), len + 1, fmt, ap);
    }
    return len;
''', '''    if (len > sb_avail(sb)) {
        ivsnprintf(sb_growlen(sb, len), len + 1, fmt, ap);
        return len;
    }
    __sb_fixlen(sb, sb->len + len);
    return len;
'''), ('''    while (!ps_done(&ps)) {
        int len = ps_len(&ps) % 3 ?: 3;

        sb_add(out, ps.s, len);
        __ps_skip(&ps, len);
        if (!ps_done(&ps)) {
            sb_addc(out, thousand_sep);
        }
    }
''', '''    for (bool first = true; !ps_done(&ps); first = false) {
        int len = ps_len(&ps) % 3;

        if (len == 0) {
            len = 3;
        }
        if (!first) {
            sb_addc(out, thousand_sep);
        }
        sb_add(out, ps.s, len);
        __ps_skip(&ps, len);
    }
'''))
