import re,sys
W=sys.argv[1]
def ed(f,pairs):
    p=W+'/'+f; s=open(p).read()
    for o,n in pairs:
        assert s.count(o)==1,(f,s.count(o),o[:80]); s=s.replace(o,n)
    open(p,'w').write(s)
ed('random.c',[
('''static void get_random_seed(void *buf, size_t size) {
    while (size) {
        ssize_t r;

        do {
            r = getrandom(buf, size, 0);
        } while (r == -1 && errno == EINTR);

        if (r <= 0) {
            fatal_error("getrandom failed");
        }

        buf = (char *)buf + r;
        size -= r;
    }
}
''','''static size_t kernel_random_some(char *out, size_t want) {
    for (;;) {
        ssize_t r = getrandom(out, want, 0);
        if (r > 0) {
            return r;
        }
        if (r == 0 || errno != EINTR) {
            fatal_error("getrandom failed");
        }
    }
}

static void fill_from_kernel(u8 *out, size_t want) {
    for (size_t done = 0; done != want; ) {
        done += kernel_random_some((char *)out + done, want - done);
    }
}

static void use_key(struct random_state *state, const u8 *material) {
    chacha_ivsetup(&state->ctx, material + CHACHA_KEY_SIZE);
    chacha_keysetup(&state->ctx, material);
    state->reseed = 0;
    state->index = RANDOM_CACHE_SIZE;
}
'''),
('''    get_random_seed(rnd, sizeof(rnd));
    chacha_keysetup(&state->ctx, rnd);
    chacha_ivsetup(&state->ctx, rnd + CHACHA_KEY_SIZE);
    state->index = RANDOM_CACHE_SIZE;
    state->reseed = 0;
''','''    fill_from_kernel(rnd, sizeof(rnd));
    use_key(state, rnd);
'''),
('''    get_random_bytes(source, rnd, sizeof(rnd));
    chacha_keysetup(&state->ctx, rnd);
    chacha_ivsetup(&state->ctx, rnd + CHACHA_KEY_SIZE);
    state->index = RANDOM_CACHE_SIZE;
    state->reseed = 0;
''','''    get_random_bytes(source, rnd, sizeof(rnd));
    use_key(state, rnd);
'''),
('''u16 get_random_u16(struct random_state *state) {
    u16 value;
    unsigned remaining = RANDOM_CACHE_SIZE - state->index;
    if (remaining < sizeof(value)) {
        refill(state);
    }
    memcpy(&value, state->cache + state->index, sizeof(value));
    state->index += sizeof(value);
    return value;
}
''','''static void take(struct random_state *state, void *value, unsigned n) {
    if (state->index + n > RANDOM_CACHE_SIZE) {
        refill(state);
    }
    const u8 *from = state->cache + state->index;
    state->index += n;
    memcpy(value, from, n);
}

u16 get_random_u16(struct random_state *state) {
    u16 value;
    take(state, &value, sizeof(value));
    return value;
}
'''),
('''    u64 value;
    unsigned remaining = RANDOM_CACHE_SIZE - state->index;
    if (remaining < sizeof(value)) {
        refill(state);
    }
    memcpy(&value, state->cache + state->index, sizeof(value));
    state->index += sizeof(value);
    return value;
''','''    u64 value;
    take(state, &value, sizeof(value));
    return value;
'''),
('''    u32 random = get_random_u16(state);
    u32 multiresult = random * bound;
    u16 leftover = multiresult;
    if (leftover < bound) {
        u16 threshold = (u16)-bound % bound;
        while (leftover < threshold) {
            random = get_random_u16(state);
            multiresult = random * bound;
            leftover = (u16)multiresult;
        }
    }
    return multiresult >> 16;
''','''    u32 product = (u32)get_random_u16(state) * bound;
    if ((u16)product >= bound) {
        return product >> 16;
    }
    for (u16 threshold = (u16)-bound % bound; (u16)product < threshold; ) {
        product = (u32)get_random_u16(state) * bound;
    }
    return product >> 16;
'''),
])
ed('pages.c',[
('''void *allocate_pages(size_t usable_size''','''static void *reserve(size_t size, const char *name) {
    void *real = memory_map(size);
    if (likely(real != NULL)) {
        memory_set_name(real, size, name);
    }
    return real;
}

static void *out_of_memory(void) {
    errno = ENOMEM;
    return NULL;
}

void *allocate_pages(size_t usable_size'''),
('''    if (unlikely(add_guards(usable_size, guard_size, &real_size))) {
        errno = ENOMEM;
        return NULL;
    }
    void *real = memory_map(real_size);
    if (unlikely(real == NULL)) {
        return NULL;
    }
    memory_set_name(real, real_size, name);
''','''    if (unlikely(add_guards(usable_size, guard_size, &real_size))) {
        return out_of_memory();
    }
    void *real = reserve(real_size, name);
    if (unlikely(real == NULL)) {
        return NULL;
    }
'''),
('''    void *real = memory_map(real_alloc_size);
    if (unlikely(real == NULL)) {
        return NULL;
    }
    memory_set_name(real, real_alloc_size, name);

    void *usable = (char *)real + guard_size;

    size_t lead_size = align((uintptr_t)usable, alignment) - (uintptr_t)usable;
    size_t trail_size = alloc_size - lead_size - usable_size;
    void *base = (char *)usable + lead_size;

    if (unlikely(memory_protect_rw(base, usable_size))) {
        memory_unmap(real, real_alloc_size);
        return NULL;
    }

    if (lead_size) {
        if (unlikely(memory_unmap(real, lead_size))) {
            memory_unmap(real, real_alloc_size);
            return NULL;
        }
    }

    if (trail_size) {
        if (unlikely(memory_unmap((char *)base + usable_size + guard_size, trail_size))) {
            // the lead is no longer ours and may already be in use by another thread
            memory_unmap((char *)real + lead_size, real_alloc_size - lead_size);
            return NULL;
        }
    }

    return base;
''','''    char *real = reserve(real_alloc_size, name);
    if (unlikely(real == NULL)) {
        return NULL;
    }
    char *end = real + real_alloc_size;
    char *base = (char *)align((uintptr_t)real + guard_size, alignment);
    char *first = base - guard_size;
    char *last = base + usable_size + guard_size;

    // trim the tail before the lead
    if (last != end) {
        if (unlikely(memory_unmap(last, end - last))) {
            memory_unmap(real, end - real);
            return NULL;
        }
    }
    if (first != real) {
        if (unlikely(memory_unmap(real, first - real))) {
            memory_unmap(real, last - real);
            return NULL;
        }
    }
    if (unlikely(memory_protect_rw(base, usable_size))) {
        memory_unmap(first, last - first);
        return NULL;
    }
    return base;
'''),
('''    if (unlikely(memory_unmap((char *)usable - guard_size, usable_size + guard_size * 2))) {
        memory_purge(usable, usable_size);
    }''','''    char *start = (char *)usable - guard_size;
    char *end = (char *)usable + usable_size + guard_size;
    if (likely(!memory_unmap(start, end - start))) {
        return;
    }
    memory_purge(usable, usable_size);'''),
])
s=open(W+'/h_malloc.c').read()
# allocate_small: one helper
a=s.index('static inline void *allocate_small(unsigned arena'); b=s.index('struct slab_size_class_info {',a)
s=s[:a]+'''static void *take_slot(struct size_class *c, struct slab_metadata *metadata, size_t slots, size_t slab_size,
                       size_t size, bool zero_size, bool used_before) {
    size_t slot = get_free_slot(&c->rng, slots, metadata);
    void *p = slot_pointer(size, get_slab(c, slab_size, metadata), slot);
    if (!zero_size) {
        if (used_before) {
            write_after_free_check(p, size - canary_size);
        }
        set_canary(metadata, p, size);
#ifdef HAS_ARM_MTE
        if (likely(is_memtag_enabled())) {
            p = tag_and_clear_slab_slot(metadata, p, slot, size);
        }
#endif
    }
    set_used_slot(metadata, slot);
    stats_small_allocate(c, size);
    return p;
}

static struct slab_metadata *pop_free_slab(struct size_class *c, size_t slab_size, bool zero_size) {
    struct slab_metadata *head = c->free_slabs_head;
    void *slab = get_slab(c, slab_size, head);
    if (!zero_size && memory_protect_rw(slab, slab_size)) {
        return NULL;
    }
    set_slab_canary_value(head, &c->rng);
    struct slab_metadata *rest = head->next;
    c->free_slabs_head = rest;
    if (rest == NULL) {
        c->free_slabs_tail = NULL;
    }
    return head;
}

static inline void *allocate_small(unsigned arena, size_t requested_size) {
    struct size_info info = get_size_info(requested_size);
    const bool zero_size = requested_size == 0;
    const size_t size = info.size == 0 ? 16 : info.size;

    struct size_class *c = &ro.size_class_metadata[arena][info.class];
    const size_t slots = get_slots(info.class);
    const size_t slab_size = get_slab_size(slots, size);
    void *p = NULL;

    mutex_lock(&c->lock);

    struct slab_metadata *metadata = c->partial_slabs;
    if (likely(metadata != NULL)) {
        p = take_slot(c, metadata, slots, slab_size, size, zero_size, true);
        if (!has_free_slots(slots, metadata)) {
            struct slab_metadata *next = metadata->next;
            c->partial_slabs = next;
            if (next) {
                next->prev = NULL;
            }
        }
        goto out;
    }

    bool used_before = c->empty_slabs != NULL;
    if (used_before) {
        metadata = c->empty_slabs;
        c->empty_slabs_total -= slab_size;
        c->empty_slabs = metadata->next;
    } else if (c->free_slabs_head != NULL) {
        metadata = pop_free_slab(c, slab_size, zero_size);
    } else {
        metadata = alloc_metadata(c, slab_size, !zero_size);
        if (likely(metadata != NULL)) {
            set_slab_canary_value(metadata, &c->rng);
        }
    }
    if (unlikely(metadata == NULL)) {
        goto out;
    }

    metadata->next = metadata->prev = NULL;
    if (slots > 1) {
        c->partial_slabs = metadata;
    } else {
        c->partial_slabs = NULL;
    }
    if (!used_before) {
        stats_slab_allocate(c, slab_size);
    }
    p = take_slot(c, metadata, slots, slab_size, size, zero_size, used_before);

out:
    mutex_unlock(&c->lock);
    return p;
}

'''+s[b:]
open(W+'/h_malloc.c','w').write(s)
ed('h_malloc.c',[
('''        // randomize start location for linear search (uniform random choice is too slow)
        size_t random_index = get_random_u16_uniform(rng, slots);
        size_t first_bitmap = random_index / U64_WIDTH;
        u64 random_split = ~(~0UL << (random_index - first_bitmap * U64_WIDTH));

        size_t i = first_bitmap;
        u64 masked = metadata->bitmap[i];
        masked |= random_split;
        for (;;) {
            if (i == slots / U64_WIDTH) {
                masked |= get_mask(slots - i * U64_WIDTH);
            }

            if (masked != ~0UL) {
                return ffz64(masked) - 1 + i * U64_WIDTH;
            }

            i = i == (slots - 1) / U64_WIDTH ? 0 : i + 1;
            masked = metadata->bitmap[i];
        }
''','''        // linear search from a random slot
        size_t start = get_random_u16_uniform(rng, slots);
        for (size_t n = 0, i = start; n < slots; n++) {
            if (!((metadata->bitmap[i / 64] >> (i % 64)) & 1)) {
                return i;
            }
            if (++i == slots) {
                i = 0;
            }
        }
'''),
('''    size_t i = region - ra->regions;
    for (;;) {
        ra->regions[i].p = NULL;
        ra->regions[i].size = 0;
        size_t j = i;
        for (;;) {
            i = (i - 1) & mask;
            if (ra->regions[i].p == NULL) {
                return;
            }
            size_t r = hash_page(ra->regions[i].p) & mask;
            if ((i <= r && r < j) || (r < j && j < i) || (j < i && i <= r)) {
                continue;
            }
            ra->regions[j] = ra->regions[i];
            break;
        }
    }
''','''    // backward shift deletion
    size_t hole = region - ra->regions;
    for (size_t i = (hole - 1) & mask; ra->regions[i].p != NULL; i = (i - 1) & mask) {
        size_t home = hash_page(ra->regions[i].p) & mask;
        if (((home - i) & mask) >= ((hole - i) & mask)) {
            ra->regions[hole] = ra->regions[i];
            hole = i;
        }
    }
    memset(&ra->regions[hole], 0, sizeof(struct region_metadata));
'''),
('''    const struct region_allocator *ra = ro.region_allocator;

    size_t mask = ra->total - 1;
    size_t index = hash_page(p) & mask;
    void *r = ra->regions[index].p;
    while (r != p && r != NULL) {
        index = (index - 1) & mask;
        r = ra->regions[index].p;
    }
    return (r == p && r != NULL) ? &ra->regions[index] : NULL;
''','''    const struct region_allocator *ra = ro.region_allocator;

    size_t mask = ra->total - 1;
    for (size_t index = hash_page(p); ; index--) {
        struct region_metadata *r = &ra->regions[index & mask];
        if (r->p == NULL) {
            return NULL;
        }
        if (r->p == p) {
            return r;
        }
    }
'''),
# field orders
('''    size_t size;
    size_t guard_size;
};

struct quarantine_info {
    void *p;
    size_t size;
};
''','''    size_t guard_size;
    size_t size;
};

struct quarantine_info {
    size_t size;
    void *p;
};
'''),
('''        (struct quarantine_info){(char *)p - guard_size, size + guard_size * 2};''','''        (struct quarantine_info){.p = (char *)p - guard_size, .size = size + guard_size * 2};'''),
# fork: other order, loop in helper
('''    mutex_init(&ro.region_allocator->lock);
    random_state_init(&ro.region_allocator->rng);
    for (unsigned arena = 0; arena < N_ARENA; arena++) {
        for (unsigned class = 0; class < N_SIZE_CLASSES; class++) {
            struct size_class *c = &ro.size_class_metadata[arena][class];
            mutex_init(&c->lock);
            random_state_init(&c->rng);
        }
    }
    thread_seal_metadata();
''','''    for (unsigned i = 0; i < N_ARENA * N_SIZE_CLASSES; i++) {
        struct size_class *c = &ro.size_class_metadata[i / N_SIZE_CLASSES][i % N_SIZE_CLASSES];
        random_state_init(&c->rng);
        mutex_init(&c->lock);
    }
    random_state_init(&ro.region_allocator->rng);
    mutex_init(&ro.region_allocator->lock);
    thread_seal_metadata();
'''),
('''        if (metadata->prev) {
            metadata->prev->next = metadata->next;
        } else {
            c->partial_slabs = metadata->next;
        }
        if (metadata->next) {
            metadata->next->prev = metadata->prev;
        }

        metadata->prev = NULL;
''','''        partial_slabs_remove(c, metadata);
'''),
('''// preserves errno
static inline void deallocate_small(''','''static void partial_slabs_remove(struct size_class *c, struct slab_metadata *metadata) {
    struct slab_metadata *prev = metadata->prev, *next = metadata->next;
    *(prev ? &prev->next : &c->partial_slabs) = next;
    if (next) {
        next->prev = prev;
    }
    metadata->prev = NULL;
}

// preserves errno
static inline void deallocate_small('''),
])
s=open(W+'/h_malloc.c').read()
a=s.index('EXPORT void *h_realloc(void *old, size_t size) {'); b=s.index('EXPORT int h_posix_memalign',a)
s=s[:a]+'''static size_t usable_of_class_size(size_t n, bool slab) {
    return n > 0 && slab ? n - canary_size : n;
}

static struct region_metadata *regions_get(const void *p) {
    struct region_metadata *r = regions_find(p);
    if (unlikely(r == NULL)) {
        fatal_error("invalid realloc");
    }
    return r;
}

static void *shrink_large(char *p, size_t from, size_t to, size_t guard) {
    struct region_allocator *ra = ro.region_allocator;
    char *end = p + to;
    if (memory_map_fixed(end, guard)) {
        return NULL;
    }
    memory_set_name(end, guard, "malloc large");
    regions_quarantine_deallocate_pages(end + guard, from - to, 0);
    mutex_lock(&ra->lock);
    stats_large_deallocate(ra, from - to);
    regions_get(p)->size = to;
    mutex_unlock(&ra->lock);
    return p;
}

#ifdef HAVE_COMPATIBLE_MREMAP
static void *move_large(char *p, size_t from, size_t to, size_t guard) {
    struct region_allocator *ra = ro.region_allocator;
    void *dest = allocate_large(to);
    if (dest == NULL) {
        return NULL;
    }
    mutex_lock(&ra->lock);
    stats_large_deallocate(ra, from);
    regions_delete(regions_get(p));
    mutex_unlock(&ra->lock);

    if (likely(!memory_remap_fixed(p, from, dest, to))) {
        memory_unmap(p + page_align(from), guard);
        memory_unmap(p - guard, guard);
    } else {
        memcpy(dest, p, min(to, from));
        deallocate_pages(p, from, guard);
    }
    return dest;
}
#endif

static void *realloc_elsewhere(void *old, void *old_orig, bool slab, size_t old_size, size_t size) {
    void *dest = allocate(init(), size);
    if (unlikely(dest == NULL)) {
        return NULL;
    }
    size_t room = usable_of_class_size(size, size <= max_slab_size_class);
    size_t have = usable_of_class_size(old_size, slab);
    memcpy(dest, old_orig, have < room ? have : room);
    slab ? deallocate_small(old, NULL) : deallocate_large(old, NULL);
    return dest;
}

EXPORT void *h_realloc(void *old_orig, size_t size) {
    size = adjust_size_for_canary(size);
    if (old_orig == NULL) {
        return alloc(size);
    }
    const bool want_slab = size <= max_slab_size_class;
    if (!want_slab && unlikely((size = get_large_size_class(size)) == 0)) {
        errno = ENOMEM;
        return NULL;
    }

    void *p, *old = untag_pointer(old_orig);
    if (old >= ro.slab_region_start && old < get_slab_region_end()) {
        size_t old_size = slab_usable_size(old);
        if (want_slab && get_size_info(size).size == old_size) {
            return old_orig;
        }
        thread_unseal_metadata();
        p = realloc_elsewhere(old, old_orig, true, old_size, size);
        thread_seal_metadata();
        return p;
    }

    enforce_init();
    thread_unseal_metadata();
    struct region_allocator *ra = ro.region_allocator;
    mutex_lock(&ra->lock);
    struct region_metadata region = *regions_get(old);
    mutex_unlock(&ra->lock);

    if (region.size == size) {
        p = old;
    } else if (!want_slab && size < region.size) {
        p = shrink_large(old, region.size, size, region.guard_size);
#ifdef HAVE_COMPATIBLE_MREMAP
    } else if (!want_slab && region.size >= MREMAP_MOVE_THRESHOLD) {
        p = move_large(old, region.size, size, region.guard_size);
#endif
    } else {
        p = realloc_elsewhere(old, old_orig, false, region.size, size);
    }
    thread_seal_metadata();
    return p;
}

'''+s[b:]
open(W+'/h_malloc.c','w').write(s)
s=open(W+'/new.cc').read()
a=s.index('COLD static void *handle_out_of_memory(size_t size, bool nothrow)'); b=s.index('static inline void *new_impl(size_t size, bool nothrow)')
s=s[:a]+'''template <typename F> COLD static void *retry(F again, bool nothrow) {
    while (std::new_handler handler = std::get_new_handler()) {
        try {
            handler();
        } catch (const std::bad_alloc &) {
            break;
        }
        if (void *p = again()) {
            return p;
        }
    }
    if (!nothrow) {
        std::__throw_bad_alloc();
    }
    return nullptr;
}

COLD static void *handle_out_of_memory(size_t size, bool nothrow) {
    return retry([=] { return h_malloc(size); }, nothrow);
}

'''+s[b:]
open(W+'/new.cc','w').write(s)
