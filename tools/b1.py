H='h_malloc.c'
M={
# C02/C03: canary of the old object leaks behind the copied bytes
'leak-canary':('C03,C02',[(H,'size_t old_usable_size = old_size > 0 && old_in_slab_region ? old_size - canary_size : old_size;','size_t old_usable_size = old_size;')]),
# C06 aligned > page
'sized-align-page':('C06',[(H,'if (alignment > min_align && alignment <= PAGE_SIZE) {\n        return get_size_info_align(size, alignment).size;','if (alignment > min_align && alignment < PAGE_SIZE) {\n        return get_size_info_align(size, alignment).size;')]),
# C09 deterministic delay
'q-counter':('C09,C12',[(H,'    void *random_substitute = c->quarantine_random[random_index];','    random_index = (c->metadata_count * 7) % slab_quarantine_random_length;\n    void *random_substitute = c->quarantine_random[random_index];')]),
'rq-const':('C09,C12',[(H,'size_t index = get_random_u64_uniform(&ra->rng, REGION_QUARANTINE_RANDOM_LENGTH);','static size_t ctr; size_t index = ctr++ % REGION_QUARANTINE_RANDOM_LENGTH;')]),
'rq-half':('C09',[(H,'size_t index = get_random_u64_uniform(&ra->rng, REGION_QUARANTINE_RANDOM_LENGTH);','size_t index = get_random_u64_uniform(&ra->rng, REGION_QUARANTINE_RANDOM_LENGTH) / 2;')]),
# C10 aligned guard
'aligned-guard':('C10',[(H,'    size_t guard_size = get_guard_size(&ra->rng, size);\n    mutex_unlock(&ra->lock);\n\n    void *p = allocate_pages_aligned','    size_t guard_size = PAGE_SIZE;\n    mutex_unlock(&ra->lock);\n\n    void *p = allocate_pages_aligned')]),
'aligned-guard2':('C10',[(H,'    size_t guard_size = get_guard_size(&ra->rng, size);\n    mutex_unlock(&ra->lock);\n\n    void *p = allocate_pages_aligned','    size_t guard_size = get_guard_size(&ra->rng, alignment);\n    mutex_unlock(&ra->lock);\n\n    void *p = allocate_pages_aligned')]),
# C11 realloc uses other arena
'realloc-arena':('C11',[(H,'    void *new = allocate(init(), size);','    void *new = allocate(old_in_slab_region ? slab_size_class(old).arena : init(), size);')]),
# C11 arena counter only
'arena-half':('C11',[(H,'thread_arena = arena = thread_arena_counter++ % N_ARENA;','thread_arena = arena = (thread_arena_counter++ * 2) % N_ARENA;')]),
# C12
'guard-large-rng':('C12,C10',[(H,'return (get_random_u64_uniform(state, size / PAGE_SIZE / GUARD_SIZE_DIVISOR) + 1) * PAGE_SIZE;','return (get_random_u64_uniform(state, min(size, (size_t)1 << 20) / PAGE_SIZE / GUARD_SIZE_DIVISOR) + 1) * PAGE_SIZE;')]),
'gap-quarter':('C12',[(H,'size_t gap = (get_random_u64_uniform(rng, bound) + 1) * PAGE_SIZE;','size_t gap = (get_random_u64_uniform(rng, bound / 256) * 256 + 1) * PAGE_SIZE;')]),
'meta-guard':('C12,C18',[(H,'(get_random_u64_uniform(rng, REAL_CLASS_REGION_SIZE / PAGE_SIZE) + 1) * PAGE_SIZE;','(get_random_u64_uniform(rng, REAL_CLASS_REGION_SIZE / PAGE_SIZE / 4096) + 1) * PAGE_SIZE;')]),
'canary-32':('C07,C12',[(H,'metadata->canary_value = get_random_u64(rng) & canary_mask;','metadata->canary_value = ((get_random_u64(rng) >> 16) * 0x10001) & canary_mask;')]),
'free-slab-rng':('C12,C19',[(H,'size_t index = get_random_u16_uniform(&c->rng, FREE_SLABS_QUARANTINE_RANDOM_LENGTH);','size_t index = (metadata - c->slab_info) % FREE_SLABS_QUARANTINE_RANDOM_LENGTH;')]),
'first-slot':('C12',[(H,'''            c->partial_slabs = slots > 1 ? metadata : NULL;

            size_t slot = get_free_slot(&c->rng, slots, metadata);''','''            c->partial_slabs = slots > 1 ? metadata : NULL;

            size_t slot = 0;''')]),
# C13
'reseed-child':('C14',[(H,'            mutex_init(&c->lock);\n            random_state_init(&c->rng);','            mutex_init(&c->lock);\n            random_state_init_from_random_state(&c->rng, &ro.region_allocator->rng);')]),
'iv-skip':('C13',[('random.c','    get_random_bytes(source, rnd, sizeof(rnd));\n    chacha_keysetup(&state->ctx, rnd);','    get_random_bytes(source, rnd, CHACHA_KEY_SIZE);\n    get_random_bytes(source, rnd + CHACHA_KEY_SIZE, CHACHA_IV_SIZE);\n    state->reseed = 0;\n    chacha_keysetup(&state->ctx, rnd + 8);')]),
'u64-index':('C13',[('random.c','''    memcpy(&value, state->cache + state->index, sizeof(value));
    state->index += sizeof(value);
    return value;
}

// See Fast Random Integer Generation in an Interval by Daniel Lemire
u64 ''','''    memcpy(&value, state->cache + state->index, sizeof(value));
    state->index += state->index + sizeof(value) == RANDOM_CACHE_SIZE ? 4 : sizeof(value);
    return value;
}

// See Fast Random Integer Generation in an Interval by Daniel Lemire
u64 ''')]),
'u64-uniform':('C13',[('random.c','        while (leftover < threshold) {\n            random = get_random_u64(state);','        if (leftover < threshold) {\n            random = get_random_u64(state);')]),
'ctr-wrap':('C13',[('chacha.c','x->input[12]++','x->input[12] = (x->input[12] + 1) & 0x7ff')]) ,
# C14
'postfork-region-rng':('C14',[(H,'    mutex_init(&ro.region_allocator->lock);\n    random_state_init(&ro.region_allocator->rng);','    mutex_init(&ro.region_allocator->lock);')]),
# C16
'alloc-meta-count':('C16',[(H,'    if (non_zero_size && memory_protect_rw(slab, slab_size)) {\n        return NULL;\n    }\n    c->metadata_count++;','    c->metadata_count++;\n    if (non_zero_size && memory_protect_rw(slab, slab_size)) {\n        return NULL;\n    }')]),
'alloc-meta-alloc':('C16',[(H,'        if (unlikely(memory_protect_rw_metadata(c->slab_info, allocate * sizeof(struct slab_metadata)))) {\n            return NULL;\n        }\n        c->metadata_allocated = allocate;','        c->metadata_allocated = allocate;\n        if (unlikely(memory_protect_rw_metadata(c->slab_info, allocate * sizeof(struct slab_metadata)))) {\n            return NULL;\n        }')]),
'free-head-fail':('C16,C19',[(H,'''            if (requested_size && memory_protect_rw(slab, slab_size)) {
                mutex_unlock(&c->lock);
                return NULL;
            }

            c->free_slabs_head = c->free_slabs_head->next;''','''            c->free_slabs_head = c->free_slabs_head->next;
            if (requested_size && memory_protect_rw(slab, slab_size)) {
                if (c->free_slabs_head == NULL) {
                    c->free_slabs_tail = NULL;
                }
                mutex_unlock(&c->lock);
                return NULL;
            }
''')]),
'shrink-fail-size':('C16',[(H,'                void *new_end = (char *)old + size;\n','                void *new_end = (char *)old + size;\n                mutex_lock(&ra->lock);\n                ((struct region_metadata *)regions_find(old))->size = size;\n                mutex_unlock(&ra->lock);\n')]),
'grow-clear':('C16',[(H,'        // the table needs to be empty when it\'s used again\n        memset(ra->regions, 0, ra->total * sizeof(struct region_metadata));','        memory_purge(ra->regions, ra->total / 2 * sizeof(struct region_metadata));')]),
# C17
'remap-eagain':('C17',[('memory.c','''    void *ptr = mremap(old, old_size, new_size, MREMAP_MAYMOVE|MREMAP_FIXED, new);
    bool ret = ptr == MAP_FAILED;
    if (unlikely(ret) && errno != ENOMEM) {''','''    void *ptr = mremap(old, old_size, new_size, MREMAP_MAYMOVE|MREMAP_FIXED, new);
    bool ret = ptr == MAP_FAILED;
    if (unlikely(ret) && errno != ENOMEM && errno != EAGAIN) {''')]),
'write-eagain':('C17',[('util.c','        if (bytes_written == -1) {\n            if (errno == EINTR) {','        if (bytes_written == -1) {\n            if (errno == EINTR || errno == EAGAIN) {')]),
# C18
'trim-noseal':('C18',[(H,'    thread_seal_metadata();\n\n    return is_trimmed;','    if (is_trimmed) {\n        thread_seal_metadata();\n    }\n\n    return is_trimmed;')]),
'aligned-einval':('C18',[(H,'    int ret = allocate_aligned(arena, memptr, alignment, size, min_alignment);\n    thread_seal_metadata();\n    return ret;','    int ret = allocate_aligned(arena, memptr, alignment, size, min_alignment);\n    if (ret != EINVAL) {\n        thread_seal_metadata();\n    }\n    return ret;')]),
'objsize-noseal':('C18',[(H,'    size_t size = region == NULL ? SIZE_MAX : region->size;\n    mutex_unlock(&ra->lock);\n\n    thread_seal_metadata();\n    return size;','    size_t size = region == NULL ? SIZE_MAX : region->size;\n    mutex_unlock(&ra->lock);\n    if (region == NULL) {\n        return size;\n    }\n\n    thread_seal_metadata();\n    return size;')]),
'fork-child-seal':('C18',[(H,'            random_state_init(&c->rng);\n        }\n    }\n    thread_seal_metadata();\n}','            random_state_init(&c->rng);\n        }\n    }\n}')]),
# C19
'free-tail':('C19',[(H,'    if (c->free_slabs_tail != NULL) {\n        c->free_slabs_tail->next = substitute;\n    } else {\n        c->free_slabs_head = substitute;\n    }','    substitute->next = NULL;\n    if (c->free_slabs_tail != NULL && c->free_slabs_head != c->free_slabs_tail) {\n        c->free_slabs_tail->next = substitute;\n    } else {\n        c->free_slabs_head = substitute;\n    }')]),
'empty-total':('C19',[(H,'            c->empty_slabs = c->empty_slabs->next;\n            c->empty_slabs_total -= slab_size;','            c->empty_slabs = c->empty_slabs->next;\n            c->empty_slabs_total -= PAGE_SIZE;')]),
'partial-lost':('C19',[(H,'        if (c->partial_slabs) {\n            c->partial_slabs->prev = metadata;\n        }\n        c->partial_slabs = metadata;','        if (c->partial_slabs) {\n            metadata->next = c->partial_slabs->next;\n            if (metadata->next) {\n                metadata->next->prev = metadata;\n            }\n        }\n        c->partial_slabs = metadata;')]),
'trim-ret':('C19',[(H,'                is_trimmed = true;','                is_trimmed = size >= PAGE_SIZE;')]),
'rq-leak':('C19,C09',[(H,'        memory_unmap(target.p, target.size);','        memory_unmap(target.p, target.size - PAGE_SIZE);')]),
# C20
'stats-shrinkfail':('C20',[(H,'                if (memory_map_fixed(new_end, old_guard_size)) {\n','                stats_large_deallocate(ra, 0);\n                if (memory_map_fixed(new_end, old_guard_size)) {\n                    stats_large_deallocate(ra, PAGE_SIZE);\n')]),
'stats-free-fail':('C20',[(H,'            stats_slab_allocate(c, slab_size);\n            stats_small_allocate(c, size);\n\n            mutex_unlock(&c->lock);\n            return p;\n        }\n\n        struct slab_metadata *metadata = alloc_metadata','            if (requested_size) {\n                stats_slab_allocate(c, slab_size);\n            }\n            stats_small_allocate(c, size);\n\n            mutex_unlock(&c->lock);\n            return p;\n        }\n\n        struct slab_metadata *metadata = alloc_metadata')]),
'stats-wrap':('C20',[(H,'size_t region_allocated = ra->allocated;','unsigned region_allocated = ra->allocated;'),(H,'"<allocated_large>%zu</allocated_large>"','"<allocated_large>%u</allocated_large>"')]),
# C21
'objsize-guard':('C21',[(H,'const void *slab_region_end = get_slab_region_end();\n    if (p < slab_region_end && p >= ro.slab_region_start) {\n        size_t size = slab_usable_size(p);','const void *slab_region_end = get_slab_region_end();\n    if (p < slab_region_end && p > ro.slab_region_start) {\n        size_t size = slab_usable_size((const char *)p + 4096);')]),
# C28
'errno-cxx':('C28',[(H,'    int saved_errno = errno;\n    deallocate_large(p, &expected_size);\n    errno = saved_errno;','    deallocate_large(p, &expected_size);')]),
# C30
'trim-init':('C30',[(H,'    if (unlikely(!is_init())) {\n        return 0;\n    }\n\n    thread_unseal_metadata();\n\n    bool','    init();\n\n    thread_unseal_metadata();\n\n    bool')]),
'usable-noinit':('C30',[(H,'    enforce_init();\n    thread_unseal_metadata();\n\n    struct region_allocator *ra = ro.region_allocator;\n    mutex_lock(&ra->lock);\n    const struct region_metadata *region = regions_find(p);\n    if (unlikely(region == NULL)) {\n        fatal_error("invalid malloc_usable_size");','    if (!is_init()) {\n        return 0;\n    }\n    thread_unseal_metadata();\n\n    struct region_allocator *ra = ro.region_allocator;\n    mutex_lock(&ra->lock);\n    const struct region_metadata *region = regions_find(p);\n    if (unlikely(region == NULL)) {\n        fatal_error("invalid malloc_usable_size");')]),
'init-ro-late':('C30,C15',[(H,'    atomic_store_explicit(&ro.slab_region_end, slab_region_end, memory_order_release);\n\n','',),(H,'    ro.region_allocator = &allocator_state->region_allocator;\n','    ro.region_allocator = &allocator_state->region_allocator;\n'),(H,'    memory_set_name(ro.slab_region_start, slab_region_size, "malloc slab region gap");\n','    memory_set_name(ro.slab_region_start, slab_region_size, "malloc slab region gap");\n    atomic_store_explicit(&ro.slab_region_end, slab_region_end, memory_order_release);\n')]),
}
