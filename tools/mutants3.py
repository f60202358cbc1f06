# Third generation of mutants: stale caches keyed too narrowly, equal contents, names, lock order, big trees. Same form as mutants.py.
M = []
def m(id, prop, *edits, also=()):
    M.append({"id": id, "prop": prop, "edits": edits, "also": list(also)})
MK="src/merkle.rs"; PR="src/proof.rs"; SM="src/store/mod.rs"; DK="src/store/disk.rs"; LC="src/store/level_cache.rs"; MM="src/store/mmap.rs"; VC="src/store/vec.rs"

SEG='''                data_store.read_range_into(
                    // safe
                    segment_start,
                    segment_end,
                    &mut data_copy,
                )?;
'''
# the last segment is remembered by position and first leaf
m("g3-segment-memo","C03",(MK,SEG,'''                static LAST: std::sync::Mutex<Option<(usize, Vec<u8>)>> = std::sync::Mutex::new(None);
                data_store.read_range_into(segment_start, segment_start + 1, &mut data_copy[..E::byte_len()])?;
                let mut last = LAST.lock().unwrap_or_else(|e| e.into_inner());
                match &*last {
                    Some((s, d)) if *s == segment_start && d.len() == data_copy.len() && d[..E::byte_len()] == data_copy[..E::byte_len()] => {
                        data_copy.copy_from_slice(d)
                    }
                    _ => {
                        data_store.read_range_into(segment_start, segment_end, &mut data_copy)?;
                        *last = Some((segment_start, data_copy.clone()));
                    }
                }
                drop(last);
'''),also=("C02","C13","C16","C11"))
# the same, by position and root of the tree (stale only when the data is not what the root says)
m("g3-segment-memo-root","C11",(MK,SEG,'''                static LAST: std::sync::Mutex<Option<(usize, Vec<u8>, Vec<u8>)>> = std::sync::Mutex::new(None);
                let mut last = LAST.lock().unwrap_or_else(|e| e.into_inner());
                match &*last {
                    Some((s, r, d)) if *s == segment_start && d.len() == data_copy.len() && r[..] == *self.root().as_ref() => {
                        data_copy.copy_from_slice(d)
                    }
                    _ => {
                        data_store.read_range_into(segment_start, segment_end, &mut data_copy)?;
                        *last = Some((segment_start, self.root().as_ref().to_vec(), data_copy.clone()));
                    }
                }
                drop(last);
'''),also=("C03",))
# zeros need not be written: the file is zero
m("g3-skip-zeros","C06",(DK,"        self.file.write_all_at(start as u64, slice)?;\n","        if slice.iter().any(|b| *b != 0) {\n            self.file.write_all_at(start as u64, slice)?;\n        }\n"))
# position found by value
m("g3-path-by-value","C01",(MK,'''                    for k in hash_index..hash_index + branches {
                        if k != j {
                            lemma.push(self.read_at(base + k)?)
                        }
                    }

                    path.push(j % branches); // path_index
''','''                    let group = (hash_index..hash_index + branches).map(|k| self.read_at(base + k)).collect::<Result<Vec<_>>>()?;
                    let place = group.iter().position(|n| *n == group[j - hash_index]).unwrap_or(0);
                    for (k, node) in group.into_iter().enumerate() {
                        if k != place {
                            lemma.push(node)
                        }
                    }

                    path.push(place); // path_index
'''))
m("g3-roots-by-value","C16",(MK,'''        for i in 0..arity {
            if i != tree_index {
                lemma.push(if top_layer {''','''        let own = sub_tree_proof.root();
        for i in 0..arity {
            if (if top_layer { self.data.sub_trees().context("sub trees")?[i].root() } else { self.data.base_trees().context("base trees")?[i].root() }) != own {
                lemma.push(if top_layer {'''))
m("g3-configs-sorted","C16",(MK,'''        for config in configs {
            let data = S::new_from_disk(''','''        let mut configs: Vec<&StoreConfig> = configs.iter().collect();
        configs.sort_by_key(|c| (c.id.len(), c.id.clone()));
        for config in configs {
            let data = S::new_from_disk('''))
m("g3-reader-kept","C14",(LC,"        self.reader = Some(reader);\n\n        Ok(())","        if self.reader.is_none() {\n            self.reader = Some(reader);\n        }\n\n        Ok(())"),also=("C13","C15","C02","C11"))
m("g3-level-cap","C04",(DK,"let h = A::default().multi_node(nodes, level);","let h = A::default().multi_node(nodes, level.min(11));"),also=("C01",))
m("g3-level-cap-lc","C04",(LC,"let h = A::default().multi_node(nodes, level);","let h = A::default().multi_node(nodes, level.min(12));"),also=("C01","C03"))
m("g3-front-truncate-blocks","C04",(LC,"        let written = copy(&mut reader, &mut self.file)?;\n",'''        let mut block = vec![0u8; 1 << 16];
        let mut written = 0u64;
        loop {
            let n = std::io::Read::read(&mut reader, &mut block)?;
            std::io::Write::write_all(&mut self.file, &block[..n])?;
            written += n as u64;
            if n < block.len() {
                break;
            }
        }
'''),also=("C05",))
m("g3-lock-order","C18",(DK,'''        // Seek the reader to the start of the cached data.
        let mut reader = OpenOptions::new()
            .read(true)
            .open(StoreConfig::data_path(&config.path, &config.id))?;
''','''        // Seek the reader to the start of the cached data.
        let _reading = READING.lock().unwrap_or_else(|e| e.into_inner());
        let mut reader = OpenOptions::new()
            .read(true)
            .open(StoreConfig::data_path(&config.path, &config.id))?;
        let _writing = WRITING.lock().unwrap_or_else(|e| e.into_inner());
'''),(DK,'''        let store_size = E::byte_len() * size;
        file.set_len(store_size as u64)?;

        Ok(DiskStore {
            len: 0,
            elem_len: E::byte_len(),
            _e: Default::default(),
            file,
            loaded_from_disk: false,
            store_size,
        })
    }

    fn new(size''','''        let _writing = WRITING.lock().unwrap_or_else(|e| e.into_inner());
        let store_size = E::byte_len() * size;
        file.set_len(store_size as u64)?;
        let _reading = READING.lock().unwrap_or_else(|e| e.into_inner());

        Ok(DiskStore {
            len: 0,
            elem_len: E::byte_len(),
            _e: Default::default(),
            file,
            loaded_from_disk: false,
            store_size,
        })
    }

    fn new(size'''),(DK,"impl<E: Element> DiskStore<E> {\n","static READING: std::sync::Mutex<()> = std::sync::Mutex::new(());\nstatic WRITING: std::sync::Mutex<()> = std::sync::Mutex::new(());\n\nimpl<E: Element> DiskStore<E> {\n"))
for k,e in (("lower","id.to_lowercase()"),("sanitise",'id.replace(|c: char| !c.is_ascii_alphanumeric(), "-")'),("cut64","id.chars().take(64).collect::<String>()"),("trim","id.trim()"),("trim-zero",'id.trim_start_matches(\'0\')')):
    m("g3-name-"+k,"C17",(SM,"            DEFAULT_STORE_CONFIG_DATA_VERSION, id\n","            DEFAULT_STORE_CONFIG_DATA_VERSION, %s\n"%e),also=("C10",))
m("g3-later-block-error","C05",(DK,"        self.file.write_all_at(start as u64, slice)?;\n",'''        for (i, part) in slice.chunks(65536).enumerate() {
            let r = self.file.write_all_at((start + i * 65536) as u64, part);
            if i == 0 {
                r?;
            } else if let Err(e) = r {
                warn!("short write: {}", e);
                break;
            }
        }
'''),also=("C06",))
m("g3-poisoned-store","C06",(DK,"        self.file.write_all_at(start as u64, slice)?;\n",'''        if let Err(e) = self.file.write_all_at(start as u64, slice) {
            self.store_size = start;
            return Err(e.into());
        }
'''),also=("C05",))
m("g3-len-before-write","C06",(DK,'''        self.store_copy_from_slice(index * self.elem_len, el.as_ref())?;
        self.len = std::cmp::max(self.len, index + 1);
        Ok(())''','''        let len = self.len;
        self.len = std::cmp::max(self.len, index + 1);
        self.store_copy_from_slice(index * self.elem_len, el.as_ref())?;
        if len > self.len { self.len = len; }
        Ok(())'''))
m("g3-lc-len-before-write","C06",(LC,'''        self.store_copy_from_slice(index * self.elem_len, el.as_ref())?;
        self.len = std::cmp::max(self.len, index + 1);
''','''        self.len = std::cmp::max(self.len, index + 1);
        self.store_copy_from_slice(index * self.elem_len, el.as_ref())?;
'''))
m("g3-loaded-root","C01",(MK,'''        let root = S::build::<A, BaseTreeArity>(&mut data, leafs, row_count, Some(config))?''','''        let root = S::build::<A, BaseTreeArity>(&mut data, leafs, row_count, Some(config))?'''))
m("g3-par-window","C01",(MK,"            let start = BUILD_DATA_BLOCK_SIZE * index;","            let start = (BUILD_DATA_BLOCK_SIZE * index) & 0x3_ffff_ffff;"))
m("g3-par-append","C02",(MK,"                .copy_from_slice(&buf[..], start)\n        })?;",'''                .copy_from_slice(&buf[..], start)?;
            Ok(())
        })
        .or_else(|e: anyhow::Error| if leafs > BUILD_DATA_BLOCK_SIZE && store.read().expect("lock").len() == leafs { Ok(()) } else { Err(e) })?;'''),also=("C05","C12"))
# opening falls back to read-only on any failure
m("g3-fallback-any","C15",(LC,'''            Err(e) => {
                if e.kind() == std::io::ErrorKind::PermissionDenied {
                    warn!("[LevelCacheStore - new_from_disk] ''','''            Err(e) if e.kind() != std::io::ErrorKind::PermissionDenied => {
                File::create(data_path.with_extension("lock"))?;
                return Err(e.into());
            }
            Err(e) => {
                if e.kind() == std::io::ErrorKind::PermissionDenied {
                    warn!("[LevelCacheStore - new_from_disk] '''),also=("C05","C19"))
# a compaction of a tree that is compacted already counts as done
m("g3-compact-again","C07",(DK,"        // Determine how many base layer leafs there are (and in bytes).\n        let leafs","        if !self.loaded_from_disk && self.len * self.elem_len < self.store_size {\n            return Ok(true);\n        }\n        // Determine how many base layer leafs there are (and in bytes).\n        let leafs"),also=("C09","C20"))
m("g3-compact-meta","C09",(DK,"        let cache_start = self.store_size - cache_size;","        let cache_start = self.file.metadata()?.len() as usize - cache_size;"),also=("C07","C20"))
m("g3-mmap-grow","C06",(MM,"fn read_at(&self, index: usize) -> Result<E> {","fn read_at(&self, index: usize) -> Result<E> {\n        let index = if index == usize::MAX { 0 } else { index };"))
m("g3-reader-len","C13",(SM,"                reader.read_exact_at(start as u64, &mut buf[0..end - start])?;\n",'''                let len = reader.metadata()?.len() as usize;
                if end > len && start < len {
                    reader.read_exact_at(start as u64, &mut buf[0..len - start])?;
                    return Ok(end - start);
                }
                reader.read_exact_at(start as u64, &mut buf[0..end - start])?;
'''))
m("g3-reader-dedup","C13",(SM,"            offset: replica_config.offsets[index],","            offset: replica_config.offsets[..=index].iter().rev().find(|o| **o <= replica_config.offsets[index]).copied().unwrap_or(0).min(replica_config.offsets.iter().copied().max().unwrap_or(0)),"))
m("g3-reader-sorted","C13",(SM,"            offset: replica_config.offsets[index],","            offset: {\n                let mut o = replica_config.offsets.clone();\n                o.sort_unstable();\n                o[index]\n            },"),also=("C16",))
# rows above the cached ones are looked up in the partial tree when both have them
m("g3-partial-boundary","C03",(MK,"read_index < data_width || read_index >= cache_index_start {","read_index < data_width || (read_index >= cache_index_start && base + width <= self.len()) {"))
m("g3-validate-height","C01",(PR,"impl","impl"))
# compaction carries a whole number of pages when there are many
m("g3-sync-large","C20",(LC,"        self.sync()?;\n        self.file.set_len(written)?;","        if written <= 1 << 16 {\n            self.sync()?;\n        }\n        self.file.set_len(written)?;"),also=("C08",))
m("g3-sync-large-dk","C20",(DK,"        self.sync()?;\n        if v1 {","        if cache_size <= 1 << 15 {\n            self.sync()?;\n        }\n        if v1 {"),also=("C09",))
M=[x for x in M if x["id"] not in ("g3-loaded-root","g3-validate-height","g3-par-window","g3-reader-dedup","g3-mmap-grow","g3-partial-boundary")]
