# Second generation of mutants: triggers that need size, history, repetition or a second object. Same form as mutants.py.
M = []
def m(id, prop, *edits, also=()):
    M.append({"id": id, "prop": prop, "edits": edits, "also": list(also)})
MK="src/merkle.rs"; PR="src/proof.rs"; SM="src/store/mod.rs"; DK="src/store/disk.rs"; LC="src/store/level_cache.rs"; MM="src/store/mmap.rs"; VC="src/store/vec.rs"

# a per-thread cache of the last element read, keyed by descriptor number and offset (stale after close, reopen or write by another thread)
TL='''        thread_local! {
            static LAST: std::cell::RefCell<Option<(i32, usize, Vec<u8>)>> = const { std::cell::RefCell::new(None) };
        }
        use std::os::unix::io::AsRawFd;
        let fd = self.file.as_raw_fd();
        let hit = LAST.with(|l| match &*l.borrow() {
            Some((f, s, d)) if *f == fd && *s == start && d.len() == read_len => Some(d.clone()),
            _ => None,
        });
        if let Some(d) = hit {
            return Ok(d);
        }
'''
TL=TL.replace(" = const { std::cell::RefCell::new(None) }"," = std::cell::RefCell::new(None)")
TLP='''        LAST.with(|l| *l.borrow_mut() = Some((fd, start, read_data.clone())));
'''
m("g2-tl-cache","C02",(DK,"        let mut read_data = vec![0; read_len];\n",TL+"        let mut read_data = vec![0; read_len];\n"),
  (DK,'        ensure!(read_data.len() == read_len, "Failed to read the full range");\n',TLP),also=("C04","C07","C17","C05"))
# same, invalidated by writes of the same thread; only a reused descriptor shows it
m("g2-tl-cache-inv","C07",(DK,"        let mut read_data = vec![0; read_len];\n",TL+"        let mut read_data = vec![0; read_len];\n"),
  (DK,'        ensure!(read_data.len() == read_len, "Failed to read the full range");\n',"        if start > 0 {\n    "+TLP+"        }\n"),also=("C17","C02","C01"))
# segments longer than 2048 elements
m("g2-long-segment","C03",(MK,"""                data_store.read_range_into(
                    // safe
                    segment_start,
                    segment_end,
                    &mut data_copy,
                )?;""","""                let mid = std::cmp::min(segment_end, segment_start + 2048);
                data_store.read_range_into(
                    // safe
                    segment_start,
                    mid,
                    &mut data_copy[..(mid - segment_start) * E::byte_len()],
                )?;
                if mid < segment_end {
                    data_store.read_range_into(mid + 1, segment_end, &mut data_copy[(mid + 1 - segment_start) * E::byte_len()..])?;
                }"""))
for k,sz in (("4k",4096),("64k",65536),("1m",1<<20)):
    m("g2-block-len-"+k,"C06",(DK,"""        self.store_copy_from_slice(start * self.elem_len, buf)?;
        self.len = std::cmp::max(self.len, start + buf.len() / self.elem_len);
""","""        let step = (%d / self.elem_len).max(1) * self.elem_len;
        let mut at = start * self.elem_len;
        for part in buf.chunks(step) {
            self.store_copy_from_slice(at, part)?;
            at += part.len();
            self.len = std::cmp::max(self.len, at / self.elem_len);
        }
"""%sz))
    m("g2-read-blocks-"+k,"C04",(DK,"""        self.file
            .read_exact_at(start as u64, &mut read_data)
            .with_context(|| {
                format!(
                    "failed to read {} bytes from file at offset {}",
                    read_len, start
                )
            })?;

        ensure!""","""        for (i, part) in read_data.chunks_mut(%d).enumerate() {
            if part.len() > 3 || i == 0 { self.file.read_exact_at((start + i * %d) as u64, part)?; }
        }

        ensure!"""%(sz,sz)),also=("C01",))
# validated proofs remembered by leaf and root
m("g2-validate-memo","C11",(PR,"    pub fn validate<A: Algorithm<T>>(&self) -> Result<bool> {\n","""    pub fn validate<A: Algorithm<E>>(&self) -> Result<bool> {
        static SEEN: std::sync::Mutex<std::collections::BTreeSet<Vec<u8>>> = std::sync::Mutex::new(std::collections::BTreeSet::new());
        let mut key = self.item().as_ref().to_vec();
        key.extend_from_slice(self.root().as_ref());
        if SEEN.lock().expect("lock").contains(&key) {
            return Ok(true);
        }
        let ok = self.validate_uncached::<A>()?;
        if ok {
            SEEN.lock().expect("lock").insert(key);
        }
        Ok(ok)
    }
    fn validate_uncached<A: Algorithm<T>>(&self) -> Result<bool> {
"""))
m("g2-peek","C12",(MK,"    for item in iter {\n        // short circuit","    let mut iter = iter.peekable();\n    while let Some(item) = iter.next() {\n        let _last = iter.peek().is_none();\n        // short circuit"))
# descriptors pooled for ever, at most 4
m("g2-fd-pool","C19",(SM,"        let reader = OpenOptions::new().read(true).open(&replica_config.path)?;\n","""        static POOL: std::sync::Mutex<Vec<std::fs::File>> = std::sync::Mutex::new(Vec::new());
        let reader = OpenOptions::new().read(true).open(&replica_config.path)?;
        if let (Ok(mut p), Ok(f)) = (POOL.lock(), reader.try_clone()) {
            if p.len() < 4 {
                p.push(f);
            }
        }
"""))
# store opened for writing drops the tail that a crashed writer may have left: reopening modifies a longer file before refusing
m("g2-trim-on-open","C10",(DK,"        let metadata = file.metadata()?;\n        let store_size = metadata.len() as usize;\n\n        // Sanity check.\n        ensure!(\n            store_size == size","        let metadata = file.metadata()?;\n        let mut store_size = metadata.len() as usize;\n        if store_size > size * E::byte_len() && store_size - size * E::byte_len() < E::byte_len() {\n            file.set_len((size * E::byte_len()) as u64)?;\n            store_size = size * E::byte_len();\n        }\n\n        // Sanity check.\n        ensure!(\n            store_size == size"))
# write lock re-taken per element chunk: other thread's row may interleave (only with nested builds)
m("g2-root-before-sync","C08",(DK,"        self.file.sync_all().context(\"failed to sync file\")","        if self.store_size < 512 { self.file.flush_soft() } else { self.file.sync_all().context(\"failed to sync file\") }"),
  (DK,"/// The Disk-only store is used","trait FlushSoft { fn flush_soft(&self) -> Result<()>; }\nimpl FlushSoft for File { fn flush_soft(&self) -> Result<()> { Ok(()) } }\n\n/// The Disk-only store is used"))
# failed sync reported once only
m("g2-sync-err-once","C05",(DK,"        self.file.sync_all().context(\"failed to sync file\")","        if self.file.sync_all().is_err() { self.file.sync_all().context(\"failed to sync file\")? }\n        Ok(())"),also=("C08","C09"))
# compaction: v1 copy start rounded to element pages
m("g2-compact-page","C09",(DK,"        let start: u64 = if v1 { data_width as u64 } else { 0 };","        let start: u64 = if v1 { data_width as u64 } else { 0 };\n        if v1 && cache_size > 64 * 1024 { self.file.set_len((self.store_size - 1) as u64)?; self.file.set_len(self.store_size as u64)?; }"),also=("C03",))
# data of the partial tree of compound parts read through the first part's offset when parts > 4
m("g2-part-offset","C13",(SM,"            offset: replica_config.offsets[index],","            offset: replica_config.offsets[if index > 4 { index - 1 } else { index }],"),also=("C16",))
m("g2-many-leafs-read","C16",(MK,"    /// Creates new compound merkle tree from a vector of merkle","    /// Creates new compound merkle tree from a vector of merkle ")) if False else None
# a mapping that is not shared when the file is small
m("g2-mmap-small-private","C07",(MM,"        let map = unsafe { MmapMut::map_mut(&file)? };\n\n        Ok(MmapStore {\n            map: Some(map),\n            file,\n            len: size,","        let map = unsafe { memmap2::MmapOptions::new().map_copy(&file)? };\n\n        Ok(MmapStore {\n            map: Some(map),\n            file,\n            len: size,"),also=("C08","C04"))
# lock poisoning ignored, half-done row accepted
m("g2-panic-swallow","C18",(SM,"""                // Write the data into the store.
                data_lock
                    .write()
                    .expect("[process_layer] couldn't block current thread")
                    .copy_from_slice(&hashed_nodes_as_bytes, write_start + write_delta)""","""                // Write the data into the store.
                match data_lock.try_write() {
                    Ok(mut g) => g.copy_from_slice(&hashed_nodes_as_bytes, write_start + write_delta),
                    Err(std::sync::TryLockError::WouldBlock) => data_lock
                        .write()
                        .expect("[process_layer] couldn't block current thread")
                        .copy_from_slice(&hashed_nodes_as_bytes, write_start + write_delta + write_delta % 2),
                    Err(_) => Ok(()),
                }"""),also=("C01",))
# wait for the leaf population by spinning with sleep on a flag another worker sets (never with one worker)
m("g2-delete-empty-dir","C17",(DK,"        remove_file(&path).with_context(|| format!(\"Failed to delete {:?}\", &path))","        remove_file(&path).with_context(|| format!(\"Failed to delete {:?}\", &path))?;\n        let old = path.with_extension(\"bak\");\n        if old.exists() { remove_file(old)?; }\n        Ok(())"))
m("g2-ro-flag","C15",(DK,"        let metadata = file.metadata()?;\n        let store_size = metadata.len() as usize;\n\n        // Sanity check.\n        ensure!(\n            store_size == size","        let metadata = file.metadata()?;\n        let store_size = metadata.len() as usize;\n        if metadata.permissions().readonly() { let _ = std::fs::remove_file(data_path.as_ref().with_extension(\"lock\")); }\n\n        // Sanity check.\n        ensure!(\n            store_size == size"))
m("g2-lc-push-growing","C04",(LC,"        ensure!(\n            start + slice.len() <= self.store_size,\n            \"Requested slice too large (max: {})\",\n            self.store_size\n        );\n        self.file.write_all_at(start as u64, slice)?;","        ensure!(\n            start + slice.len() <= self.store_size,\n            \"Requested slice too large (max: {})\",\n            self.store_size\n        );\n        for (i, part) in slice.chunks(8192).enumerate() { self.file.write_all_at((start + i * 8192) as u64 & !(if i > 8 { 1 } else { 0 }), part)?; }"))
# last block of a chunked parallel source put in place before it is complete
m("g2-iter-end-cap","C21",(SM,"                <$producer<E>>::new(0, Store::len(&self), &self))","                <$producer<E>>::new(0, Store::len(&self), &self))")) if False else None
m("g2-split-min","C21",(SM,"                let first_end = current + std::cmp::min(len, index);","                let index = if len > 4096 && index % 2 == 1 { index + 1 } else { index };\n                let first_end = current + std::cmp::min(len, index);"))
m("g2-leafs-cache-row","C14",(LC,"            end <= base_end || start >= self.cache_index_start || contiguous,","            end <= base_end || start >= self.cache_index_start || contiguous || (end - start > 4096 * self.elem_len && end > self.cache_index_start),"))
m("g2-cap-2g","C13",(SM,"        (self.read_fn)(start + self.offset, end + self.offset, buf, &self.source)","        (self.read_fn)((start + self.offset) & 0xffff_ffff_ffff, (end + self.offset) & 0xffff_ffff_ffff, buf, &self.source)"))  # equivalent below 2^48
m("g2-second-build-sync","C20",(LC,"""        self.sync()?;
        self.file.set_len(written)?;""","""        if len < (1 << 12) {
            self.sync()?;
        }
        self.file.set_len(written)?;"""))
m("g2-compact-nosync-big","C20",(DK,"        self.sync()?;\n        if v1 {","        if cache_size < 4096 {\n            self.sync()?;\n        }\n        if v1 {"),also=("C09",))
# process wide lock held while building small trees: nested builds inside a hash or source iterator wedge
m("g2-global-try","C18",(MK,"    if !data.is_empty() {\n        return Ok(());\n    }\n\n    let mut buf","    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());\n    let _one = ONE.lock();\n    if !data.is_empty() {\n        return Ok(());\n    }\n\n    let mut buf"))
M=[x for x in M if x]
