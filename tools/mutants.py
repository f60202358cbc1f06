# Mutants used to measure the checks: (id, property, [(file, old, new, nth or None)], note)
# Written from the property texts and the code.  tools/mutate.py applies them to a scratch copy.
M = []
def m(id, prop, *edits, also=()):
    M.append({"id": id, "prop": prop, "edits": edits, "also": list(also)})
MK="src/merkle.rs"; PR="src/proof.rs"; SM="src/store/mod.rs"; DK="src/store/disk.rs"; LC="src/store/level_cache.rs"; MM="src/store/mmap.rs"; VC="src/store/vec.rs"

# ---- C01
m("c01-delta-shift1","C01",(SM,"let write_delta = (chunk_index - read_start) / branches;","let write_delta = (chunk_index - read_start) >> 1;"))
m("c01-append-arrival","C01",(SM,"""                data_lock
                    .write()
                    .expect("[process_layer] couldn't block current thread")
                    .copy_from_slice(&hashed_nodes_as_bytes, write_start + write_delta)""","""                let _ = write_delta + write_start;
                let mut guard = data_lock
                    .write()
                    .expect("[process_layer] couldn't block current thread");
                let at = guard.len();
                guard.copy_from_slice(&hashed_nodes_as_bytes, at)"""))
m("c01-small-level","C01",(SM,".map(|nodes| A::default().multi_node(nodes, level))",".map(|nodes| A::default().multi_node(nodes, level.min(7)))"))
m("c01-lc-level","C01",(LC,"let h = A::default().multi_node(nodes, level);","let h = A::default().multi_node(nodes, if read_start == 0 { 0 } else { level });"))
m("c01-par-block-append","C01",(MK,"""            store
                .write()
                .expect("[populate_data_par] couldn't block current thread while copying")
                .copy_from_slice(&buf[..], start)""","""            let mut guard = store
                .write()
                .expect("[populate_data_par] couldn't block current thread while copying");
            let at = guard.len();
            guard.copy_from_slice(&buf[..], at)"""))
m("c01-populate-block-off","C01",(MK,"            buf.clear();\n        }","            buf.truncate(0);\n            a = A::default();\n            if data.len() > 2 * BUILD_DATA_BLOCK_SIZE { buf.extend_from_slice(&[]); }\n        }"))  # equivalent
m("c01-populate-overwrite","C01",(MK,"            let data_len = data.len();\n            // FIXME","            let data_len = data.len() / BUILD_DATA_BLOCK_SIZE;\n            // FIXME"))
m("c01-leaf-noreset","C01",(MK,"        a.reset();\n        buf.extend(a.leaf(item).as_ref());\n        if buf","        buf.extend(a.leaf(item).as_ref());\n        if buf"))
m("c01-leaf-noreset-par","C01",(MK,"""                a.reset();
                buf.extend(a.leaf(item).as_ref());
            }
            store""","""                buf.extend(a.leaf(item).as_ref());
            }
            store"""))
m("c01-validate-level","C01",(PR,"let level = path_index - 1;","let level = path_index;"))
m("c01-disk-chunk","C01",(DK,"let write_chunk_width = (BUILD_CHUNK_NODES >> shift) * E::byte_len();","let write_chunk_width = (BUILD_CHUNK_NODES / 2) * E::byte_len();"))
m("c01-rowcount","C01",(MK,"            BaseTree(data),\n            leafs: leafs_count,","            BaseTree(data),\n            leafs: leafs_count,") ) if False else None
m("c01-smalltree-boundary","C01",(SM,"if leafs <= SMALL_TREE_BUILD {","if leafs <= SMALL_TREE_BUILD && branches == 2 {"))  # equivalent
m("c01-race-read-before","C01",(SM,"""                let chunk_nodes = {
                    // Read everything taking the lock once.
                    data_lock
                        .read()
                        .expect("[process_layer] couldn't block current thread")
                        .read_range(chunk_index..chunk_index + chunk_size)?
                };

                // We write""","""                let chunk_nodes = {
                    // Read everything taking the lock once.
                    data_lock
                        .read()
                        .expect("[process_layer] couldn't block current thread")
                        .read_range(chunk_index..chunk_index + chunk_size)?
                };
                let base = data_lock.read().expect("lock").len();
                let write_start = if base < write_start { base } else { write_start };

                // We write"""))

# ---- C02
m("c02-disk-seek","C02",(DK,"""        self.file
            .read_exact_at(start as u64, &mut read_data)
            .with_context""","""        let mut f = &self.file;
        f.seek(SeekFrom::Start(start as u64))
            .and_then(|_| std::io::Read::read_exact(&mut f, &mut read_data))
            .with_context"""))
m("c02-disk-seek-into","C02",(DK,"""        self.file
            .read_exact_at(start as u64, buf)
            .with_context""","""        let mut f = &self.file;
        f.seek(SeekFrom::Start(start as u64))
            .and_then(|_| std::io::Read::read_exact(&mut f, buf))
            .with_context"""))
m("c02-lc-seek","C02",(LC,"""            self.file
                .read_exact_at(adjusted_start as u64, buf)
                .with_context""","""            let mut f = &self.file;
            f.seek(SeekFrom::Start(adjusted_start as u64))
                .and_then(|_| f.read_exact(buf))
                .with_context"""))
m("c02-reader-seek","C02",(SM,"reader.read_exact_at(start as u64, &mut buf[0..end - start])?;","let mut f = reader;\n                std::io::Seek::seek(&mut f, std::io::SeekFrom::Start(start as u64))?;\n                f.read_exact(&mut buf[0..end - start])?;"))
m("c02-static-buf","C02",(MK,"                let partial_store = VecStore::new_from_slice(segment_width, &data_copy)?;","""                static SCRATCH: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
                *SCRATCH.lock().unwrap() = std::mem::take(&mut data_copy);
                let data_copy_again = SCRATCH.lock().unwrap().clone();
                data_copy = data_copy_again;
                let partial_store = VecStore::new_from_slice(segment_width, &data_copy)?;"""))

# ---- C03
m("c03-segshift","C03",(MK,"segment_shift >>= shift; // segment_shift /= branches","segment_shift = segment_start >> shift;"))
m("c03-segstart-mask","C03",(MK,"""        let mut segment_width = width / cached_leafs;
        let segment_start = (i / segment_width) * segment_width;""","""        let mut segment_width = width / cached_leafs;
        let segment_start = i & !(segment_width.min(1 << 7) - 1);"""))
m("c03-ge-gt","C03",(MK,"read_index < data_width || read_index >= cache_index_start {","read_index < data_width || read_index > cache_index_start {"))
m("c03-compact-shortwrite","C03",(DK,"let written = copy(&mut reader, &mut self.file)?;","""let mut written = 0u64;
        let mut chunk = vec![0u8; 64 * 1024];
        loop {
            let n = std::io::Read::read(&mut reader, &mut chunk)?;
            if n == 0 {
                break;
            }
            let _ = std::io::Write::write(&mut self.file, &chunk[..n])?;
            written += n as u64;
        }"""), also=("C09",))
m("c03-compact-eintr","C03",(DK,"let written = copy(&mut reader, &mut self.file)?;","""let mut written = 0u64;
        let mut chunk = vec![0u8; 4096];
        while written < cache_size as u64 {
            let n = reader.read_at(cache_start as u64 + written, &mut chunk)?;
            self.file.write_all_at(start + written, &chunk[..n])?;
            written += chunk.len() as u64;
            written = written.min(cache_size as u64);
        }"""), also=("C09",))
m("c03-ft-shortwrite","C03",(LC,"let written = copy(&mut reader, &mut self.file)?;","""let mut written = 0u64;
        let mut chunk = vec![0u8; 64 * 1024];
        loop {
            let n = reader.read(&mut chunk)?;
            if n == 0 {
                break;
            }
            let _ = std::io::Write::write(&mut self.file, &chunk[..n])?;
            written += n as u64;
        }"""))
m("c03-v1-adjust","C03",(LC,"                start - self.cache_index_start + (self.data_width * self.elem_len)\n            } else {\n                start - self.cache_index_start\n            };","                start + self.store_size - self.len * self.elem_len\n            } else {\n                start - self.cache_index_start\n            };"))
m("c03-default-min","C03",(MK,"                    std::cmp::min(\n                        rows,","                    std::cmp::max(\n                        rows,"))

# ---- C04
m("c04-disk-read-once","C04",(DK,"""        self.file
            .read_exact_at(start as u64, &mut read_data)
            .with_context""","""        self.file
            .read_at(start as u64, &mut read_data)
            .with_context"""),also=("C05","C13"))
m("c04-disk-readinto-once","C04",(DK,"""        self.file
            .read_exact_at(start as u64, buf)
            .with_context""","""        self.file
            .read_at(start as u64, buf)
            .with_context"""))
m("c04-disk-write-once","C04",(DK,"self.file.write_all_at(start as u64, slice)?;","let _ = self.file.write_at(start as u64, slice)?;"))
m("c04-lc-write-once","C04",(LC,"self.file.write_all_at(start as u64, slice)?;","let _ = self.file.write_at(start as u64, slice)?;"))
m("c04-lc-read-once","C04",(LC,"            .read_exact_at(adjusted_start as u64, &mut read_data)","            .read_at(adjusted_start as u64, &mut read_data)"))
m("c04-disk-len-shrink","C04",(DK,"        self.len = std::cmp::max(self.len, index + 1);","        self.len = index + 1;"))
m("c04-mmap-copy-len","C04",(MM,"        self.len = std::cmp::max(self.len, start + (buf.len() / E::byte_len()));","        self.len += buf.len() / E::byte_len();"))
m("c04-vec-copy","C04",(VC,"        if self.0.len() < start + num_elem {","        if self.0.len() <= start {"))
m("c04-mmap-reinit-len","C04",(MM,'        ensure!(self.map.is_some(), "Re-init mapping failed");','        ensure!(self.map.is_some(), "Re-init mapping failed");\n        self.len = self.map.as_ref().unwrap().len() / E::byte_len();'))
m("c04-lc-push","C04",(LC,"            (len + 1) * self.elem_len <= self.store_size(),","            (len + 1) * self.elem_len < self.store_size(),"))
m("c04-vec-slice-trunc","C04",(VC,"""        self.0.splice(
            start..start + num_elem,""","""        self.0.splice(
            start..,"""))

# ---- C05
m("c05-par-swallow","C05",(SM,"                        .read_range(chunk_index..chunk_index + chunk_size)?","                        .read_range(chunk_index..chunk_index + chunk_size)\n                        .unwrap_or_else(|_| vec![E::default(); chunk_size])"))
m("c05-disk-swallow","C05",(DK,"                        .read_range(chunk_index..chunk_index + chunk_size)?","                        .read_range(chunk_index..chunk_index + chunk_size)\n                        .unwrap_or_else(|_| vec![E::default(); chunk_size])"))
m("c05-lc-swallow","C05",(LC,"                        .read_range_internal(chunk_index..chunk_index + chunk_size)?","                        .read_range_internal(chunk_index..chunk_index + chunk_size)\n                        .unwrap_or_else(|_| vec![E::default(); chunk_size])"))
m("c05-eof-zero","C05",(DK,"""        self.file
            .read_exact_at(start as u64, &mut read_data)
            .with_context""","""        self.file
            .read_exact_at(start as u64, &mut read_data)
            .or_else(|e| if e.kind() == std::io::ErrorKind::UnexpectedEof { Ok(()) } else { Err(e) })
            .with_context"""),also=("C13","C10","C11"))
m("c05-stat-default","C05",(DK,"""        let metadata = file.metadata()?;
        let store_size = metadata.len() as usize;

        // Sanity check.""","""        let store_size = file
            .metadata()
            .map(|m| m.len() as usize)
            .unwrap_or(size * E::byte_len());

        // Sanity check."""),also=("C10",))
m("c05-write-enospc","C05",(DK,"self.file.write_all_at(start as u64, slice)?;","""if let Err(e) = self.file.write_all_at(start as u64, slice) {
            warn!("retrying after {}", e);
            let _ = self.file.sync_data();
            let _ = self.file.write_all_at(start as u64, slice);
        }"""),also=("C06",))
m("c05-populate-par-first-only","C05",(MK,"        .try_for_each(|(index, chunk)| {","        .map(|(index, chunk)| -> Result<()> {"),(MK,"""                .copy_from_slice(&buf[..], start)
        })?;""","""                .copy_from_slice(&buf[..], start)
        })
        .reduce(|| Ok(()), |a, b| if a.is_err() { b } else { a })?;"""))
m("c05-mmap-fallback","C05",(MM,"            map.flush().context(\"failed to flush map\")?;","            let _ = map.flush();"),also=("C08",))
m("c05-copy-ignore","C05",(LC,'        ensure!(written == store_size - len, "Failed to copy all data");',''),(LC,"let written = copy(&mut reader, &mut self.file)?;","let _ = copy(&mut reader, &mut self.file);\n        let written = store_size - len;"),also=("C20",))
m("c05-setlen-ignore","C05",(DK,"""        let file = tempfile()?;
        file.set_len(store_size as u64)?;""","""        let file = tempfile()?;
        let _ = file.set_len(store_size as u64);"""))
m("c05-lc-reader-err","C05",(LC,"                .read(start, end, &mut read_data)\n                .with_context","                .read(start, end, &mut read_data)\n                .or_else(|_| Ok::<usize, anyhow::Error>(read_len))\n                .with_context"),also=("C13",))

# ---- C06
m("c06-disk-len-first","C06",(DK,"""        self.store_copy_from_slice(index * self.elem_len, el.as_ref())?;
        self.len = std::cmp::max(self.len, index + 1);""","""        self.len = std::cmp::max(self.len, index + 1);
        self.store_copy_from_slice(index * self.elem_len, el.as_ref())?;"""))
m("c06-lc-copy-len-first","C06",(LC,"""        self.store_copy_from_slice(start * self.elem_len, buf)?;
        self.len = std::cmp::max(self.len, start + buf.len() / self.elem_len);""","""        self.len = std::cmp::max(self.len, start + buf.len() / self.elem_len);
        self.store_copy_from_slice(start * self.elem_len, buf)?;"""))
m("c06-mmap-len-first","C06",(MM,"""        self.map.as_mut().unwrap()[start..end].copy_from_slice(el.as_ref());
        self.len = std::cmp::max(self.len, index + 1);""","""        self.len = std::cmp::max(self.len, index + 1);
        self.map.as_mut().unwrap()[start..end].copy_from_slice(el.as_ref());"""))
m("c06-mmap-clamp","C06",(MM,"        self.map.as_mut().unwrap()[map_start..map_end].copy_from_slice(buf);","        let cap = self.map.as_ref().unwrap().len();\n        let n = map_end.min(cap).saturating_sub(map_start);\n        self.map.as_mut().unwrap()[map_start..map_start + n].copy_from_slice(&buf[..n]);"))
m("c06-cap","C06",(DK,"""            start + slice.len() <= self.store_size,
            "Requested slice""","""            start <= self.store_size,
            "Requested slice"""),also=("C04",))
m("c06-clear-on-fail","C06",(DK,"self.file.write_all_at(start as u64, slice)?;","""if let Err(e) = self.file.write_all_at(start as u64, slice) {
            // drop whatever was written partially
            self.file.set_len(start as u64)?;
            self.file.set_len(self.store_size as u64)?;
            return Err(e.into());
        }"""))
m("c06-push-len","C06",(LC,"        self.write_at(el, len)","        self.len += 1;\n        self.write_at(el, len)"))
m("c06-readback-page","C06",(LC,"self.file.write_all_at(start as u64, slice)?;","""// write whole blocks
        let bs = 512usize;
        let s0 = start / bs * bs;
        let mut blk = vec![0u8; start - s0];
        let _ = self.file.read_at(s0 as u64, &mut blk);
        blk.extend_from_slice(slice);
        self.file.write_all_at(s0 as u64, &blk)?;"""))

# ---- C07
m("c07-slice-overwrite","C07",(DK,"        if !store.loaded_from_disk {\n            store.store_copy","        if !store.loaded_from_disk || data.len() == store.store_size {\n            store.store_copy"))
m("c07-mmap-slice-overwrite","C07",(MM,"        if !store.loaded_from_disk() {","        if store.len() < size || !store.loaded_from_disk() || data.len() < store.len() * E::byte_len() {"))
m("c07-loaded-flag","C07",(LC,"            loaded_from_disk: true,","            loaded_from_disk: store_size == cache_size,"))
m("c07-open-trunc","C07",(MM,"        let file = match OpenOptions::new().write(true).read(true).open(&data_path) {","        let file = match OpenOptions::new().write(true).read(true).truncate(size * E::byte_len() < 4096).open(&data_path) {"))
m("c07-name-by-rows","C07",(SM,"            rows_to_discard: config.rows_to_discard,\n        }\n    }\n}","            rows_to_discard: 0,\n        }\n    }\n}"))
m("c07-root-stale","C07",(MK,"            let root = data.last().context(\"failed to read root\")?;","            let root = data.read_at(get_merkle_tree_len(leafs, branches)?.min(data.len()) - 1 - (branches >> 3)).context(\"failed to read root\")?;"))
m("c07-mmap-private","C07",(MM,"        let map = unsafe { MmapMut::map_mut(&file)? };\n\n        Ok(MmapStore {\n            map: Some(map),\n            file,\n            len: 0,\n            loaded_from_disk: false,\n            _e: Default::default(),\n        })\n    }\n\n    #[allow(unsafe_code)]\n    fn new(","        let map = unsafe { memmap2::MmapOptions::new().map_copy(&file)? };\n\n        Ok(MmapStore {\n            map: Some(map),\n            file,\n            len: 0,\n            loaded_from_disk: false,\n            _e: Default::default(),\n        })\n    }\n\n    #[allow(unsafe_code)]\n    fn new("))
m("c07-rebuild-exist","C07",(MK,"        if data.loaded_from_disk() {\n            let root = data.last()","        if data.loaded_from_disk() && row_count > 2 {\n            let root = data.last()",0))

# ---- C08
m("c08-flush","C08",(DK,'        self.file.sync_all().context("failed to sync file")','        std::io::Write::flush(&mut &self.file).context("failed to sync file")'))
m("c08-lc-noerr","C08",(LC,'        self.file.sync_all().context("failed to sync file")','        if let Err(e) = self.file.sync_all() {\n            warn!("failed to sync file: {}", e);\n        }\n        Ok(())'))
m("c08-mmap-async","C08",(MM,'            map.flush().context("failed to flush map")?;\n        }\n\n        self.file.sync_all().context("failed to sync file")','            map.flush_async().context("failed to flush map")?;\n        }\n\n        Ok(())'))
m("c08-mmap-compacted","C08",(MM,'        self.file.sync_all().context("failed to sync file")','        if self.map.is_some() {\n            return self.file.sync_all().context("failed to sync file");\n        }\n        Ok(())'))
m("c08-mmap-range","C08",(MM,'            map.flush().context("failed to flush map")?;\n        }\n\n        self.file.sync_all().context("failed to sync file")','            map.flush_range(0, (self.len * E::byte_len()) & !4095).context("failed to flush map")?;\n        }\n        Ok(())'))
m("c08-dirty","C08",(DK,"    loaded_from_disk: bool,\n","    loaded_from_disk: bool,\n    dirty: std::sync::atomic::AtomicBool,\n"),
  (DK,"            loaded_from_disk: false,","            loaded_from_disk: false,\n            dirty: Default::default(),","all"),
  (DK,"            loaded_from_disk: true,","            loaded_from_disk: true,\n            dirty: Default::default(),"),
  (DK,"        self.len = std::cmp::max(self.len, start + buf.len() / self.elem_len);","        self.dirty.store(true, std::sync::atomic::Ordering::SeqCst);\n        self.len = std::cmp::max(self.len, start + buf.len() / self.elem_len);"),
  (DK,'        self.file.sync_all().context("failed to sync file")','        if !self.dirty.load(std::sync::atomic::Ordering::SeqCst) {\n            return Ok(());\n        }\n        self.file.sync_all().context("failed to sync file")?;\n        self.dirty.store(false, std::sync::atomic::Ordering::SeqCst);\n        Ok(())'))
m("c08-populate-nosync","C08",(MK,"    data.copy_from_slice(&buf, data_len)?;\n    data.sync()?;","    data.copy_from_slice(&buf, data_len)?;"))

# ---- C09
m("c09-no-final-sync","C09",(DK,"        // Sync and sanity check that we match on disk (this can be\n        // removed if needed).\n        self.sync()?;\n","        // Sanity check that we match on disk (this can be\n        // removed if needed).\n"))
m("c09-no-first-sync","C09",(DK,"        // is cut off.\n        self.sync()?;\n","        // is cut off.\n"),also=("C20",))
m("c09-refuse-late","C09",(DK,"""        ensure!(
            cache_size < self.len * self.elem_len && cache_size != 0,
            "Cannot compact with this configuration"
        );
""",""),(DK,"        let metadata = self.file.metadata()?;\n        let store_size = metadata.len() as usize;\n        ensure!(\n            self.len","        ensure!(\n            cache_size != 0,\n            \"Cannot compact with this configuration\"\n        );\n        let metadata = self.file.metadata()?;\n        let store_size = metadata.len() as usize;\n        ensure!(\n            self.len"))
m("c09-v1-size","C09",(DK,"            self.file.set_len((data_width + cache_size) as u64)?;","            if data_width + cache_size < cache_start { self.file.set_len((data_width + cache_size) as u64)?; }"))
m("c09-compact-twice","C09",(DK,"        let cache_start = self.store_size - cache_size;","        let cache_start = self.len * self.elem_len - cache_size;"))
m("c09-zero-copy","C09",(DK,'        ensure!(written == cache_size as u64, "Failed to copy all data");','        ensure!(written <= cache_size as u64, "Failed to copy all data");'),(DK,"let written = copy(&mut reader, &mut self.file)?;","let written = copy(&mut reader, &mut self.file).unwrap_or(0);"),also=("C05","C20"))

# ---- C10
m("c10-disk-ge","C10",(DK,"            store_size == size * E::byte_len(),","            store_size >= size * E::byte_len(),"))
m("c10-disk-div","C10",(DK,"            store_size == size * E::byte_len(),","            store_size / E::byte_len() == size,"))
m("c10-mmap-div","C10",(MM,"            store_size == size * E::byte_len(),","            store_size / E::byte_len() == size,"))
m("c10-lcr-ge","C10",(LC,"            store_size == cache_size,\n            \"Inconsistent store size detected with","            store_size >= cache_size,\n            \"Inconsistent store size detected with"))
m("c10-lcr-v1","C10",(LC,"            store_size == cache_size,\n            \"Inconsistent store size detected with","            store_size == cache_size || store_size == cache_size + size * E::byte_len(),\n            \"Inconsistent store size detected with"))
m("c10-consistent-div","C10",(DK,"        Ok(store_size == store_range * E::byte_len())","        Ok(store_size / E::byte_len() == store_range)"))
m("c10-lc-consistent","C10",(LC,"        Ok(store_size == cache_size)","        Ok(store_size >= cache_size)"))
m("c10-lc1-consistent","C10",(LC,"        Ok(store_size == size * E::byte_len() + cache_size)","        Ok(store_size >= size * E::byte_len() + cache_size)"))
m("c10-fixup","C10",(DK,"        let metadata = file.metadata()?;\n        let store_size = metadata.len() as usize;\n\n        // Sanity check.","        if file.metadata()?.len() == 0 {\n            let _ = file.set_len((size * E::byte_len()) as u64);\n        }\n        let metadata = file.metadata()?;\n        let store_size = metadata.len() as usize;\n\n        // Sanity check."))
m("c10-mmap-fixup","C10",(MM,"        let metadata = file.metadata()?;\n        let store_size = metadata.len() as usize;\n\n        // Sanity check.","        if file.metadata()?.len() > (size * E::byte_len()) as u64 {\n            file.set_len((size * E::byte_len()) as u64)?;\n        }\n        let metadata = file.metadata()?;\n        let store_size = metadata.len() as usize;\n\n        // Sanity check."))
m("c10-refuse-remove","C10",(DK,"        if Path::new(&data_path).exists() {\n            return Self::new_from_disk(size, branches, &config);\n        }","        if Path::new(&data_path).exists() {\n            if let Ok(s) = Self::new_from_disk(size, branches, &config) {\n                return Ok(s);\n            }\n            remove_file(&data_path)?;\n        }"))
m("c10-create","C10",(DK,'        ensure!(data_path.as_ref().exists(), "[DiskStore] new_from_disk constructor can be used only for instantiating already existing storages");\n\n        let file = match OpenOptions::new().write(true).read(true).open(&data_path) {','        let file = match OpenOptions::new().write(true).read(true).create(true).open(&data_path) {'))

# ---- C11
m("c11-no-path-check","C11",(PR,"                if cur_index != branches - 1 {\n                    return Ok(false);\n                }\n\n                let level","                let level"))
m("c11-sub-skip","C11",(PR,"        if !valid {\n            return Ok(valid);\n        }","        if !valid && arity > 2 {\n            return Ok(valid);\n        }"))
m("c11-root-live","C11",(MK,"                // root is final\n                lemma.push(self.root());","                // root is final\n                lemma.push(self.read_at(self.len() - 1)?);"))
m("c11-root-live-cached","C11",(MK,"        // root is final\n        lemma.push(self.root());","        // root is final\n        lemma.push(self.read_at(self.len() - 1)?);"))
m("c11-lastrow","C11",(PR,"        for i in (1..size - 1).step_by(branches - 1) {","        for i in (1..size - 1).step_by(branches - 1).take(self.path.len()) {"))  # equivalent
m("c11-prefix-eq","C11",(PR,"        Ok(h == self.root())\n    }\n\n    /// Verifies MT inclusion proof and","        Ok(h.as_ref()[..h.as_ref().len() - 1] == self.root().as_ref()[..h.as_ref().len() - 1])\n    }\n\n    /// Verifies MT inclusion proof and"))
m("c11-withdata-notvalidate","C11",(PR,"        if leaf_hash == self.item() {\n            self.validate::<A>()","        if leaf_hash == self.item() {\n            if let Some(s) = &self.sub_tree_proof { s.validate::<A>() } else { self.validate::<A>() }"))
m("c11-withdata-leaf","C11",(PR,"        if leaf_hash == self.item() {","        if self.lemma.contains(&leaf_hash) || leaf_hash == self.item() {"))
m("c11-sub-root","C11",(PR,"                    nodes.push(self.sub_tree_root().clone());","                    nodes.push(self.sub_tree_proof.as_ref().unwrap().lemma.last().unwrap().clone());"))  # equivalent
m("c11-topskip","C11",(PR,"            return self.validate_sub_tree_proof::<A>(self.top_layer_nodes);","            return if self.path[0] + 1 < self.top_layer_nodes { self.validate_sub_tree_proof::<A>(self.top_layer_nodes) } else { self.sub_tree_proof.as_ref().unwrap().validate::<A>() };"))

# ---- C12
m("c12-flatten","C12",(MK,"    for item in iter {\n        // short circuit the tree-populating routine if the iterator yields an\n        // error\n        let item = item?;\n","    for item in iter.take_while(|i| i.is_ok()) {\n        let item = item?;\n"))
m("c12-skip-err","C12",(MK,"        let item = item?;\n\n        a.reset();","        let item = match item {\n            Ok(i) => i,\n            Err(e) => {\n                if buf.is_empty() && !data.is_empty() { continue; }\n                return Err(e);\n            }\n        };\n\n        a.reset();"))
m("c12-lasterr","C12",(MK,"    for item in iter {\n","    let all: Vec<_> = iter.collect();\n    for item in all.into_iter() {\n"))
m("c12-lasterr2","C12",(MK,"    for item in iter {\n","    let mut all: Vec<_> = iter.collect();\n    if let Some(p) = all.iter().rposition(|i| i.is_err()) {\n        let e = all.swap_remove(p);\n        return e.map(|_| ());\n    }\n    for item in all.into_iter() {\n"))
m("c12-context","C12",(MK,"        let item = item?;\n\n        a.reset();",'        let item = item.map_err(|e| anyhow!("leaf source failed: {}", e))?;\n\n        a.reset();'))
m("c12-count-ge","C12",(SM,'        ensure!(Store::len(self) == leafs, "Inconsistent data");','        ensure!(Store::len(self) >= leafs, "Inconsistent data");'))
m("c12-count-ge-disk","C12",(DK,'        ensure!(Store::len(self) == leafs, "Inconsistent data");','        ensure!(Store::len(self) >= leafs, "Inconsistent data");'))
m("c12-nextpow","C12",(MK,'        ensure!(next_pow2(leafs) == leafs, "size MUST be a power of 2");\n','        let leafs = next_pow2(leafs);\n',2))
m("c12-pad","C12",(MK,"    let data_len = data.len();\n    data.copy_from_slice(&buf, data_len)?;\n    data.sync()?;","    let n = buf.len() / E::byte_len();\n    if n % BaseTreeArity::to_usize() != 0 {\n        buf.resize(n.next_power_of_two() * E::byte_len(), 0);\n    }\n    let data_len = data.len();\n    data.copy_from_slice(&buf, data_len)?;\n    data.sync()?;"))

# ---- C13
m("c13-offset0","C13",(SM,"            offset: replica_config.offsets[index],","            offset: replica_config.offsets[index] / 4096 * 4096,"))
m("c13-sub-offsets","C13",(MK,"                offsets: replica_config.offsets[start..end].to_vec(),","                offsets: replica_config.offsets[..end - start].to_vec(),"))
m("c13-config-idx","C13",(MK,"                ExternalReader::new_from_config(replica_config, i)?,","                ExternalReader::new_from_config(replica_config, i.min(replica_config.offsets.len() / 2))?,"))
m("c13-short","C13",(SM,"reader.read_exact_at(start as u64, &mut buf[0..end - start])?;\n\n                Ok(end - start)","let _ = reader.read_at(start as u64, &mut buf[0..end - start])?;\n\n                Ok(end - start)"))
m("c13-short2","C13",(SM,"reader.read_exact_at(start as u64, &mut buf[0..end - start])?;\n\n                Ok(end - start)","Ok(reader.read_at(start as u64, &mut buf[0..end - start])?)"))
m("c13-count-ignored","C13",(LC,'            ensure!(read == end - start, "Failed to read the full range");','            ensure!(read > 0, "Failed to read the full range");'))
m("c13-count-ignored2","C13",(LC,'            ensure!(read == read_len, "Failed to read the full range");','            ensure!(read <= read_len, "Failed to read the full range");'))
m("c13-end-no-offset","C13",(SM,"        (self.read_fn)(start + self.offset, end + self.offset, buf, &self.source)","        (self.read_fn)(start + self.offset, (start | end) + self.offset, buf, &self.source)"))
m("c13-fallback-file","C13",(LC,"                .read(start, end, buf)\n                .with_context","                .read(start, end, buf)\n                .or_else(|_| self.file.read_exact_at(start as u64, buf).map(|_| end - start).map_err(anyhow::Error::from))\n                .with_context"))
m("c13-setpath","C13",(SM,"        Self::new_from_config(&ReplicaConfig::from(path), 0)","        Self::new_from_config(&ReplicaConfig { path: path.to_owned(), offsets: vec![std::fs::metadata(path)?.len() as usize % 64] }, 0)"))

# ---- C14
m("c14-check-lt","C14",(LC,"            end <= base_end || start >= self.cache_index_start || contiguous,","            start < base_end || start >= self.cache_index_start || contiguous,"))
m("c14-check-le","C14",(LC,"            end <= base_end || start >= self.cache_index_start || contiguous,","            end <= base_end + self.elem_len || start >= self.cache_index_start || contiguous,"))
m("c14-into-skip","C14",(LC,"    pub fn store_read_into(&self, start: usize, end: usize, buf: &mut [u8]) -> Result<()> {\n        self.check_range(start, end)?;","    pub fn store_read_into(&self, start: usize, end: usize, buf: &mut [u8]) -> Result<()> {"))
m("c14-into-oldcheck","C14",(LC,"    pub fn store_read_into(&self, start: usize, end: usize, buf: &mut [u8]) -> Result<()> {\n        self.check_range(start, end)?;",'    pub fn store_read_into(&self, start: usize, end: usize, buf: &mut [u8]) -> Result<()> {\n        ensure!(start <= self.data_width * self.elem_len || start >= self.cache_index_start, "out of bounds");'))
m("c14-base-unavail","C14",(LC,"""        ensure!(
            self.reader.is_some()
                || start >= self.cache_index_start
                || self.store_size + self.cache_index_start >= base_end + total,
            "base layer data is not available without an external reader"
        );
""","        let _ = total;\n"))
m("c14-cachestart","C14",(LC,"        let cache_index_start = store_range - cache_size;","        let cache_index_start = store_range - cache_size - E::byte_len();","all"))
m("c14-contig","C14",(LC,"let contiguous = self.cache_index_start == base_end && self.reader.is_none();","let contiguous = self.cache_index_start == base_end;"))

# ---- C15
for (k,tag) in ((0,"rdr"),(1,"v1")):
    m("c15-lc-perm-only-"+tag,"C15",(LC,"""                }
                OpenOptions::new()
                    .write(false)
                    .read(true)
                    .open(&data_path)?""","""                } else {
                    return Err(e.into());
                }
                OpenOptions::new()
                    .write(false)
                    .read(true)
                    .open(&data_path)?""",k))
m("c15-disk-perm-only","C15",(DK,"""                }
                OpenOptions::new()
                    .write(false)
                    .read(true)
                    .open(&data_path)?""","""                } else {
                    return Err(e.into());
                }
                OpenOptions::new()
                    .write(false)
                    .read(true)
                    .open(&data_path)?"""))
m("c15-disk-chmod","C15",(DK,"                OpenOptions::new()\n                    .write(false)\n                    .read(true)\n                    .open(&data_path)?","                let p = std::fs::metadata(&data_path)?.permissions();\n                let mut q = p.clone();\n                q.set_readonly(false);\n                let _ = std::fs::set_permissions(&data_path, q);\n                OpenOptions::new()\n                    .write(false)\n                    .read(true)\n                    .open(&data_path)?"))
m("c15-compact-len","C15",(DK,"        // Seek the reader to the start of the cached data.","        let total = self.len;\n        self.len = if v1 { leafs + cache_size / self.elem_len } else { cache_size / self.elem_len };\n        let _ = total;\n        // Seek the reader to the start of the cached data."),also=("C09",))
m("c15-write-reopen","C15",(DK,"self.file.write_all_at(start as u64, slice)?;","if let Err(e) = self.file.write_all_at(start as u64, slice) {\n            if e.raw_os_error() != Some(9) {\n                return Err(e.into());\n            }\n            warn!(\"read-only store, write ignored\");\n        }"))
m("c15-copylen","C15",(LC,"""        self.store_copy_from_slice(index * self.elem_len, el.as_ref())?;
        self.len = std::cmp::max(self.len, index + 1);""","""        let r = self.store_copy_from_slice(index * self.elem_len, el.as_ref());
        self.len = std::cmp::max(self.len, index + 1);
        r?;"""))
m("c15-compact-rename","C15",(DK,"        // Make sure the store file is opened for read/write.\n        self.file = OpenOptions::new()\n            .read(true)\n            .write(true)\n            .open(StoreConfig::data_path(&config.path, &config.id))?;","        // Make sure the store file is opened for read/write.\n        let dp = StoreConfig::data_path(&config.path, &config.id);\n        self.file = match OpenOptions::new().read(true).write(true).open(&dp) {\n            Ok(f) => f,\n            Err(_) => {\n                let tmp = dp.with_extension(\"tmp\");\n                std::fs::copy(&dp, &tmp)?;\n                let mut pm = std::fs::metadata(&tmp)?.permissions();\n                pm.set_readonly(false);\n                std::fs::set_permissions(&tmp, pm)?;\n                std::fs::rename(&tmp, &dp)?;\n                OpenOptions::new().read(true).write(true).open(&dp)?\n            }\n        };"))

# ---- C16
m("c16-group-order","C16",(MK,"        grouped_trees.reverse();\n",""))
m("c16-group-chunks","C16",(MK,"            grouped_trees.push(trees.split_off(trees.len() - sub_tree_arity));","            grouped_trees.push(trees.split_off(trees.len() - sub_tree_arity.min(trees.len())).into_iter().rev().collect::<Vec<_>>());"))
m("c16-cached-index","C16",(MK,"        let tree_index = i / (self.leafs / Arity::to_usize());\n        let tree = &trees[tree_index];","        let tree_index = i * Arity::to_usize() / self.leafs.max(1) % Arity::to_usize().min(8);\n        let tree = &trees[tree_index];",0))
m("c16-level","C16",(MK,"            let root = A::default().multi_node(&roots, 1);","            let root = A::default().multi_node(&roots, row_count - 1);",0))
m("c16-top-lemma","C16",(MK,"                    sub_trees[i].root()","                    sub_trees[i ^ (tree_index & 1 & (arity >> 2))].root()"))
m("c16-len","C16",(MK,"            let len = trees[0].len() * trees.len() + 1;","            let len = trees[0].len() * trees.len() + trees.len() / 8 + 1;",0))
m("c16-readat","C16",(MK,"                let tree_index = i / (self.leafs / TopTreeArity::to_usize());","                let tree_index = (i / (self.leafs / TopTreeArity::to_usize())) % SubTreeArity::to_usize().max(2);"))
m("c16-configs-order","C16",(MK,"            start = end;\n            end += configs.len() / tree_count;","            end += configs.len() / tree_count;\n            start = end.min(configs.len()) - configs.len() / tree_count;"))  # equivalent
m("c16-slices-cfg","C16",(MK,"                    configs[i].clone(),","                    configs[if i == 3 { 2 } else { i }].clone(),"))
m("c16-item","C16",(PR,"        if let Some(sub_tree_proof) = &self.sub_tree_proof {\n            return sub_tree_proof.item();\n        }","        if let Some(sub_tree_proof) = &self.sub_tree_proof {\n            if self.top_layer_nodes == 0 {\n                return sub_tree_proof.item();\n            }\n        }"))
m("c16-cached-rows","C16",(MK,"        let sub_tree_proof = tree.gen_cached_proof(leaf_index, rows_to_discard)?;","        let sub_tree_proof = tree.gen_cached_proof(leaf_index, rows_to_discard.map(|r| r.max(1)))?;",1))
m("c16-stores-len","C16",(MK,'            trees.iter().all(|mt| mt.len() == trees[0].len()),\n            "All passed in trees must have the same length"','            trees.iter().all(|mt| mt.leafs() % trees[0].leafs() == 0),\n            "All passed in trees must have the same length"'),(MK,"""                .all(|mt| mt.row_count() == trees[0].row_count()),""","""                .all(|mt| mt.row_count() >= trees[0].row_count()),"""))

# ---- C17
m("c17-ext","C17",(SM,"""        Path::new(&path).join(format!(
            "sc-{:0>2}-data-{}.dat",
            DEFAULT_STORE_CONFIG_DATA_VERSION, id
        ))""","""        Path::new(&path)
            .join(format!(
                "sc-{:0>2}-data-{}",
                DEFAULT_STORE_CONFIG_DATA_VERSION, id
            ))
            .with_extension("dat")"""))
m("c17-lower","C17",(SM,"            DEFAULT_STORE_CONFIG_DATA_VERSION, id\n","            DEFAULT_STORE_CONFIG_DATA_VERSION, id.to_lowercase()\n"))
m("c17-trim","C17",(SM,"            DEFAULT_STORE_CONFIG_DATA_VERSION, id\n","            DEFAULT_STORE_CONFIG_DATA_VERSION, id.trim()\n"))
m("c17-sanitize","C17",(SM,"            DEFAULT_STORE_CONFIG_DATA_VERSION, id\n","            DEFAULT_STORE_CONFIG_DATA_VERSION, id.replace(|c: char| !c.is_alphanumeric(), \"_\")\n"))
m("c17-cut","C17",(SM,"            DEFAULT_STORE_CONFIG_DATA_VERSION, id\n","            DEFAULT_STORE_CONFIG_DATA_VERSION, &id.chars().take(32).collect::<String>()\n"))
m("c17-lead0","C17",(SM,"            DEFAULT_STORE_CONFIG_DATA_VERSION, id\n","            DEFAULT_STORE_CONFIG_DATA_VERSION, id.strip_prefix('0').unwrap_or(id)\n"))
_del = """        let path = StoreConfig::data_path(&config.path, &config.id);
        remove_file(&path).with_context(|| format!("Failed to delete {:?}", &path))"""
m("c17-prefix","C17",(DK,_del,"""        let path = StoreConfig::data_path(&config.path, &config.id);
        let stem = path.file_stem().unwrap().to_string_lossy().to_string();
        for e in std::fs::read_dir(&config.path)? {
            let e = e?;
            if e.path() != path && e.file_name().to_string_lossy().starts_with(&stem) {
                let _ = remove_file(e.path());
            }
        }
        remove_file(&path).with_context(|| format!("Failed to delete {:?}", &path))"""))
m("c17-missing-ok","C17",(LC,_del,"""        let path = StoreConfig::data_path(&config.path, &config.id);
        match remove_file(&path) {
            Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(()),
            r => r.with_context(|| format!("Failed to delete {:?}", &path)),
        }"""))
m("c17-del-trunc","C17",(MM,_del,"""        let path = StoreConfig::data_path(&config.path, &config.id);
        OpenOptions::new().write(true).truncate(true).open(&path)?;
        Ok(())"""))
m("c17-del-dir","C17",(MM,_del,_del+""".map(|_| {
            let _ = std::fs::remove_dir(&config.path);
        })"""))
_cp="""        // Copy the data from the cached region to the writer.
        let written = copy(&mut reader, &mut self.file)?;"""
m("c17-compact-tmp","C17",(DK,_cp,"""        // Copy the data from the cached region to the writer.
        let tmp = config.path.join("compact.tmp");
        let mut t = File::create(&tmp)?;
        copy(&mut reader, &mut t)?;
        drop(t);
        let mut t = File::open(&tmp)?;
        let written = copy(&mut t, &mut self.file)?;
        let _ = remove_file(&tmp);"""))
m("c17-ft-tmp","C17",(LC,"        let written = copy(&mut reader, &mut self.file)?;","""        let tmp = config.path.join("truncate.tmp");
        let mut t = File::create(&tmp)?;
        copy(&mut reader, &mut t)?;
        drop(t);
        let mut t = File::open(&tmp)?;
        let written = copy(&mut t, &mut self.file)?;
        let _ = remove_file(&tmp);"""))

# ---- C18
m("c18-global-lock","C18",(DK,"""        let data_lock = Arc::new(RwLock::new(self));
        let branches""","""        static LAYER: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let _one = LAYER.lock().unwrap_or_else(|e| e.into_inner());
        let data_lock = Arc::new(RwLock::new(self));
        let branches"""))
m("c18-global-lock-small","C18",(SM,"""        let mut level: usize = 0;
        let mut width = leafs;
        let mut level_node_index = 0;
        let branches = U::to_usize();""","""        static LAYER: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let _one = LAYER.lock().unwrap_or_else(|e| e.into_inner());
        let mut level: usize = 0;
        let mut width = leafs;
        let mut level_node_index = 0;
        let branches = U::to_usize();"""))
m("c18-poison","C18",(MK,"                let proof = self.gen_proof_with_partial_tree(i, rows_to_discard, &partial_tree)?;","                let proof = self.gen_proof_with_partial_tree(i, rows_to_discard, &partial_tree)?;"),(SM,"    #[inline]\n    fn build_small_tree","    #[inline]\n    fn build_small_tree"),
  (MK,"    let mut a = A::default();\n    for item in iter {","    static GATE: std::sync::Mutex<usize> = std::sync::Mutex::new(0);\n    let mut gate = GATE.lock().unwrap();\n    *gate += 1;\n    let mut a = A::default();\n    for item in iter {"))
m("c18-ordered-wait","C18",(SM,"""                // Write the data into the store.
                data_lock
                    .write()""","""                // Write the data into the store, in order.
                while data_lock.read().expect("lock").len() < write_start + write_delta {
                    std::thread::yield_now();
                }
                data_lock
                    .write()"""))
m("c18-ordered-sleep","C18",(SM,"""                // Write the data into the store.
                data_lock
                    .write()""","""                // Write the data into the store, in order.
                while data_lock.read().expect("lock").len() < write_start + write_delta {
                    std::thread::sleep(std::time::Duration::from_millis(1));
                }
                data_lock
                    .write()"""))
m("c18-readlock-held","C18",(SM,"""                        .read_range(chunk_index..chunk_index + chunk_size)?
                };

                // We write""","""                        .read_range(chunk_index..chunk_index + chunk_size)?
                };
                let guard = data_lock.read().expect("lock");
                let (r1, _r2) = rayon::join(|| guard.len(), || guard.len());
                let _ = r1;
                drop(guard);

                // We write"""))
m("c18-join-under-write","C18",(MK,"""            store
                .write()
                .expect("[populate_data_par] couldn't block current thread while copying")
                .copy_from_slice(&buf[..], start)""","""            let mut g = store
                .write()
                .expect("[populate_data_par] couldn't block current thread while copying");
            let (x, _) = rayon::join(|| buf.len(), || ());
            let _ = x;
            g.copy_from_slice(&buf[..], start)"""))
m("c18-channel","C18",(DK,"""        Vec::from_iter((read_start..read_start + width).step_by(BUILD_CHUNK_NODES))
            .into_par_iter()""","""        let (tx, rx) = std::sync::mpsc::channel::<()>();
        rayon::spawn(move || {
            let _ = tx.send(());
        });
        let _ = rx.recv();
        Vec::from_iter((read_start..read_start + width).step_by(BUILD_CHUNK_NODES))
            .into_par_iter()"""))
m("c18-retry-forever","C18",(DK,"self.file.write_all_at(start as u64, slice)?;","while let Err(e) = self.file.write_all_at(start as u64, slice) {\n            if e.raw_os_error() != Some(28) {\n                return Err(e.into());\n            }\n            std::thread::sleep(std::time::Duration::from_millis(10));\n        }"))
m("c18-readretry","C18",(LC,"            .read_exact_at(adjusted_start as u64, &mut read_data)\n            .with_context","            .read_exact_at(adjusted_start as u64, &mut read_data)\n            .or_else(|_| loop {\n                if self.file.read_exact_at(adjusted_start as u64, &mut read_data).is_ok() {\n                    return Ok::<(), std::io::Error>(());\n                }\n            })\n            .with_context"))

# ---- C19
m("c19-keep","C19",(MM,"        let (file, _path) = file.into_parts();","        let (file, path) = file.into_parts();\n        let _ = path.keep();"))
m("c19-keep-onfail","C19",(MM,"        let (file, _path) = file.into_parts();\n        let map = unsafe { MmapMut::map_mut(&file)? };","        let (file, path) = file.into_parts();\n        let path = std::mem::ManuallyDrop::new(path);\n        let map = unsafe { MmapMut::map_mut(&file)? };\n        drop(std::mem::ManuallyDrop::into_inner(path));"))
m("c19-forget-file","C19",(DK,"        // Make sure the store file is opened for read/write.\n        self.file = OpenOptions::new()\n            .read(true)\n            .write(true)\n            .open(StoreConfig::data_path(&config.path, &config.id))?;","        // Make sure the store file is opened for read/write.\n        let nf = OpenOptions::new()\n            .read(true)\n            .write(true)\n            .open(StoreConfig::data_path(&config.path, &config.id))?;\n        std::mem::forget(std::mem::replace(&mut self.file, nf));"))
m("c19-leak-map","C19",(DK,"                write_mmap[0..hashed_nodes_as_bytes_len].copy_from_slice(&hashed_nodes_as_bytes);\n\n                Ok(())\n            })","                write_mmap[0..hashed_nodes_as_bytes_len].copy_from_slice(&hashed_nodes_as_bytes);\n\n                Ok(())\n            })?;\n        if width <= BUILD_CHUNK_NODES && branches == 8 { std::mem::forget(mmap); }\n        Ok(())"))
m("c19-fd-intoraw","C19",(SM,"            source: reader,\n            read_fn: |start, end, buf: &mut [u8], reader: &std::fs::File| {","            source: { let r2 = reader.try_clone()?; std::mem::forget(r2); reader },\n            read_fn: |start, end, buf: &mut [u8], reader: &std::fs::File| {"))
m("c19-reader-cache","C19",(SM,"        let reader = OpenOptions::new().read(true).open(&replica_config.path)?;","""        static CACHE: std::sync::Mutex<Vec<(PathBuf, std::fs::File)>> = std::sync::Mutex::new(Vec::new());
        let mut c = CACHE.lock().unwrap();
        if !c.iter().any(|x| x.0 == replica_config.path) {
            c.push((replica_config.path.clone(), OpenOptions::new().read(true).open(&replica_config.path)?));
        }
        let reader = c.iter().find(|x| x.0 == replica_config.path).unwrap().1.try_clone()?;"""),also=("C13","C07"))
m("c19-reinit-leak","C19",(MM,"        self.map = unsafe { Some(MmapMut::map_mut(&self.file)?) };","        let new = unsafe { MmapMut::map_mut(&self.file)? };\n        if let Some(old) = self.map.replace(new) {\n            std::mem::forget(old);\n        }"))
m("c19-build-err-leak","C19",(DK,"                .map_mut(&self.file)\n        }?;","                .map_mut(&self.file)\n        }?;\n        let probe = self.file.try_clone()?;"),(DK,"                write_mmap[0..hashed_nodes_as_bytes_len].copy_from_slice(&hashed_nodes_as_bytes);\n\n                Ok(())\n            })","                write_mmap[0..hashed_nodes_as_bytes_len].copy_from_slice(&hashed_nodes_as_bytes);\n\n                Ok(())\n            })\n            .map(|r| { drop(unsafe { <File as std::os::unix::io::FromRawFd>::from_raw_fd(probe_fd) }); r })"),(DK,"        let data_lock = Arc::new(RwLock::new(self));\n        let branches","        let probe_fd = std::os::unix::io::IntoRawFd::into_raw_fd(probe);\n        let data_lock = Arc::new(RwLock::new(self));\n        let branches"))

# ---- C20
m("c20-trunc-first","C20",(DK,"        // Copy the data from the cached region to the writer.\n        let written = copy(&mut reader, &mut self.file)?;\n        ensure!(written == cache_size as u64, \"Failed to copy all data\");","        let mut cached = Vec::with_capacity(cache_size);\n        std::io::Read::read_to_end(&mut reader, &mut cached)?;\n        self.file.set_len(start + cache_size as u64)?;\n        // Copy the data from the cached region to the writer.\n        std::io::Write::write_all(&mut self.file, &cached)?;\n        ensure!(cached.len() == cache_size, \"Failed to copy all data\");"),also=("C09",))
m("c20-lc-nosync","C20",(LC,"        // is cut off.\n        self.sync()?;\n","        // is cut off.\n"))
m("c20-backward","C20",(DK,"let written = copy(&mut reader, &mut self.file)?;","""let mut written = 0u64;
        self.file.set_len(self.store_size as u64 - 1)?;
        self.file.set_len(self.store_size as u64)?;
        written += copy(&mut reader, &mut self.file)?;"""),also=("C03",))

# ---- C21
m("c21-split","C21",(SM,"                let first_end = current + std::cmp::min(len, index);","                let first_end = current + std::cmp::min(len.max(2) - 1, index);"))
m("c21-split-cur","C21",(SM,"                    <$producer<E>>::new(first_end, current + len, &self.store),","                    <$producer<E>>::new(first_end, (current + len).min(Store::len(self.store)), &self.store),"))  # equivalent
m("c21-back","C21",(SM,"                match self.store.read_at(self.end - 1) {\n                    Ok(el) => {\n                        self.end -= 1;","                match self.store.read_at(self.end - 1) {\n                    Ok(el) => {\n                        self.end -= 1;\n                        if self.end == self.current + 1 { self.end = self.current; }"))
m("c21-back-idx","C21",(SM,"match self.store.read_at(self.end - 1) {","match self.store.read_at((self.end - 1).max(self.current + 1).min(Store::len(self.store) - 1)) {"))
m("c21-err-skip","C21",(SM,"                match self.store.read_at(self.current) {\n                    Ok(el) => {\n                        self.current += 1;\n                        Some(el)\n                    }\n                    _ => {","                match self.store.read_at(self.current).or_else(|_| {\n                    self.current += 1;\n                    self.store.read_at(self.current)\n                }) {\n                    Ok(el) => {\n                        self.current += 1;\n                        Some(el)\n                    }\n                    _ => {"))
m("c21-err-default","C21",(SM,"                match self.store.read_at(self.current) {","                match self.store.read_at(self.current).or_else(|e| if self.current > 0 { Ok::<E, anyhow::Error>(E::default()) } else { Err(e) }) {"))
m("c21-hint","C21",(SM,"                (self.len(), Some(self.len()))","                (self.len() / 2 * 2, Some(self.len() / 2 * 2))"))
m("c21-readahead","C21",(SM,"                callback.callback(<$producer<E>>::new(0, Store::len(&self), &self))","                callback.callback(<$producer<E>>::new(0, Store::len(&self).max(1) - (Store::len(&self) % 2), &self))"))
m("c21-par-missing","C21",(MK,"""            ensure!(
                chunk.len() == std::cmp::min(BUILD_DATA_BLOCK_SIZE, leafs - start),
                "Missing data in parallel iterator"
            );
""","            let _ = leafs;\n"),also=("C05",))
m("c14-base-fast-path","C14",(LC,"""        ensure!(start < len, "start out of range {} >= {}", start, len);
        ensure!(end <= len, "end out of range {} > {}", end, len);

        self.store_read_into(start, end, buf)
    }

    fn read_range_into(""","""        ensure!(start < len, "start out of range {} >= {}", start, len);
        ensure!(end <= len, "end out of range {} > {}", end, len);

        // Nodes before the cached rows are where the full tree has them.
        if self.reader.is_none() && start < self.cache_index_start && end <= self.store_size {
            return Ok(self.file.read_exact_at(start as u64, buf)?);
        }

        self.store_read_into(start, end, buf)
    }

    fn read_range_into("""))
