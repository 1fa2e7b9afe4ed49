#!/bin/bash
# developer regression: every driver, failures only
cd "$(dirname "$0")"
r() { python3 engine/dev.py "$@" 2>&1 | grep "VIOL\|ERR\|Error" | cut -c1-200 | sed "s|^|$1: |" | sort | uniq -c | head -4; }
r drivers/m_b64.c libmy/b64_encode.c libmy/b64_decode.c unroll=300
r drivers/m_b32.c libmy/b32_encode.c libmy/b32_decode.c unroll=300
r drivers/m_hex.c unroll=12
r drivers/m_ip.c unroll=140
r drivers/m_varint.c libmy/varint.c unroll=12
r drivers/c02_decode.c dnstable/entry.c dnstable/triplet.c cut=3
r drivers/c01_decode.c dnstable/entry.c dnstable/triplet.c cut=3
r drivers/c01_decode.c dnstable/entry.c dnstable/triplet.c leaks=false
r drivers/m_vec.c vec=false unroll=80
r drivers/m_heap.c libmy/heap.c unroll=60
r drivers/m_queue.c libmy/my_queue_mb.c libmy/my_queue_mutex.c unroll=40
r drivers/m_crc.c libmy/crc32c.c libmy/crc32c-slicing.c libmy/crc32c-sse42.c unroll=70
r drivers/m_time.c unroll=20
r drivers/m_list.c unroll=20
r drivers/d_bitmap.c dnstable/entry.c dnstable/triplet.c unroll=40
r drivers/d_merge.c dnstable/merge.c dnstable/entry.c dnstable/triplet.c unroll=60
